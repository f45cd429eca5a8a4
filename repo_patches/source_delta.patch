From 4a9e07e9a0b4206fc4d32ec90fe83b1331965a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:28 +0000
Subject: [PATCH 01/22] fix: report the right length for a sub-sequence
 spanning several parts

The composite returned by AtomicSeqIterable.subSequence was created with a
length computed from bounds that the loop had already shifted. A result that
spans several parts could then claim the wrong length, which broke padding
(for example %20g of a BigDecimal).
---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..680332a 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int resultLength = end - start; // 'start' and 'end' are adjusted below
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), resultLength);
   }
 
   /**
-- 
2.43.0


From 039b855a6f8abd30d6ddff72d8103337c969459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:32 +0000
Subject: [PATCH 02/22] fix: do not reserve room for a prefix that zero does
 not get

With '#', the octal and hexadecimal conversions subtracted the prefix length
from the zero padding or precision even for the value zero, which is printed
without a prefix. %#08x of 0 gave two spaces and six zeros, %#.3o gave 00.
%#.0o of 0 now prints 0, as in C.
---
 .../java/io/fastprintf/appender/SeqFormatter.java   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..ea667ac 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -111,21 +111,26 @@ public final class SeqFormatter {
   private static Seq formatUnsignedInteger(
       FormatContext context, IntForm value, Function<IntForm, String> toString, String prefix) {
     int signum = value.signum();
+    boolean alternate = context.hasFlag(Flag.ALTERNATE);
+    boolean octalPrefix = "0".equals(prefix);
     if (signum == 0 && context.getPrecision() == 0) {
-      return spaceJustify(context, Seq.empty());
+      // As in C, '#' keeps the single '0' of an octal zero even with an explicit zero precision.
+      return spaceJustify(context, alternate && octalPrefix ? Seq.ch('0') : Seq.empty());
     }
+    // Zero never gets a prefix, so no room must be reserved for it.
+    boolean prefixed = alternate && signum != 0;
     Seq v0 = Seq.wrap(toString.apply(value));
     int precision = 1;
     if (context.isPrecisionSet()) {
       precision = context.getPrecision();
-      if (context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
+      if (prefixed && octalPrefix) {
         --precision;
       }
     } else if (context.hasFlag(Flag.ZERO_PAD)
         && context.isWidthSet()
         && !context.hasFlag(Flag.LEFT_JUSTIFY)) {
       precision = context.getWidth();
-      if (context.hasFlag(Flag.ALTERNATE)) {
+      if (prefixed) {
         precision -= prefix.length();
       }
     }
@@ -133,7 +138,7 @@ public final class SeqFormatter {
       Seq pad = Seq.repeated('0', precision - v0.length());
       v0 = v0.prepend(pad);
     }
-    if (signum != 0 && context.hasFlag(Flag.ALTERNATE)) {
+    if (prefixed) {
       v0 = v0.prepend(Seq.wrap(prefix));
     }
     return spaceJustify(context, v0);
-- 
2.43.0


From 3a04de98212e53e1f7d3744dbe7b972f4fd673e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:40 +0000
Subject: [PATCH 03/22] fix: honour the space flag for %d of zero with
 precision zero

'% .0d' of 0 printed nothing while '%+.0d' printed the sign. C printf keeps
the sign character in both cases.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index ea667ac..1ef6f9d 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
-- 
2.43.0


From 0ba98469c60f06022a0a70a7971645f247c1c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:48 +0000
Subject: [PATCH 04/22] fix: honour the space flag for positive infinity

'% f' of positive infinity lost the leading space that every other positive
number gets.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 1ef6f9d..f363c0c 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -148,14 +148,7 @@ public final class SeqFormatter {
     if (value.isNaN()) {
       v0 = Seq.wrap("NaN");
     } else {
-      boolean neg = value.signum() < 0;
-      if (neg) {
-        v0 = Seq.wrap("-Infinity");
-      } else if (context.hasFlag(Flag.PLUS)) {
-        v0 = Seq.wrap("+Infinity");
-      } else {
-        v0 = Seq.wrap("Infinity");
-      }
+      v0 = sign(context, Seq.wrap("Infinity"), value.signum() < 0);
     }
     return spaceJustify(context, v0);
   }
-- 
2.43.0


From f939ffc763312ad015d9662ce1286234e46bca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:54:56 +0000
Subject: [PATCH 05/22] fix: choose the %g style of a BigDecimal after rounding

The switch between plain and scientific notation looked at the unrounded
value, so 999999.5 printed as 1000000 instead of 1e+06 and 0.00009999999 as
1e-04 instead of 0.0001. A zero with a non-zero scale printed as 0e-02.
---
 .../java/io/fastprintf/number/BigDecimalWrapper.java   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..2da8c32 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -112,12 +112,16 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout generalLayout(int precision) {
+    if (value.signum() == 0) {
+      return new FloatLayout(Seq.ch('0'), null);
+    }
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
-    if ((value.equals(BigDecimal.ZERO))
-        || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
+    // The style is chosen by the exponent of the value as printed, i.e. after rounding.
+    BigDecimal rounded = value.round(new MathContext(precision));
+    if ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0)) {
 
-      int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
+      int e = -rounded.scale() + (rounded.precision() - 1);
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
-- 
2.43.0


From 599cd95f3560ab4e6f3b97b477827ef6460ea892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:05 +0000
Subject: [PATCH 06/22] fix: print two exponent digits for a ten-digit integral
 BigDecimal

%.9e of 1234567890 printed the exponent as +9 instead of +09.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 2da8c32..826657b 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -38,7 +38,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0


From 9683a68f9d5587b06ed722de57d36c71e07f828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:12 +0000
Subject: [PATCH 07/22] fix: ignore the scale of a zero BigDecimal in %e and %f

0E+5 printed as 000000.000000 with %f and 0.00 as 0.000000e-02 with %e.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 826657b..07c7b89 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -142,6 +142,9 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout scientificLayout(int precision) {
+    if (value.signum() == 0) {
+      return new FloatLayout(Seq.ch('0'), Seq.wrap("+00"));
+    }
     int scale = value.scale();
     int origPrec = value.precision();
     int compPrec;
@@ -159,6 +162,9 @@ public final class BigDecimalWrapper implements FloatForm {
   @Override
   public FloatLayout decimalLayout(int precision) {
     BigDecimal value = this.value;
+    if (value.signum() == 0) {
+      return new FloatLayout(Seq.ch('0'), null);
+    }
     int scale = value.scale();
     if (scale > precision) {
       // more "scale" digits than the requested "precision"
-- 
2.43.0


From 5073b1ce05cb99596ed797787a8c53bcf32808eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:20 +0000
Subject: [PATCH 08/22] fix: keep the requested significant digits for %#g in
 scientific style

'#' must prevent trailing zeros from being dropped, but a value with fewer
digits than the precision was never filled up: %#g of the BigDecimal 1.5E-10
printed 1.5e-10 while the same double printed 1.50000e-10.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f363c0c..9d13d4e 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -262,9 +262,11 @@ public final class SeqFormatter {
   }
 
   /** Formats the mantissa and exponent for %g when it chooses scientific representation. */
-  private static Seq formatGScientific(FormatContext context, FloatLayout layout) {
+  private static Seq formatGScientific(FormatContext context, FloatLayout layout, int precision) {
     Seq mantissa = layout.getMantissa();
-    if (!context.hasFlag(Flag.ALTERNATE)) {
+    if (context.hasFlag(Flag.ALTERNATE)) {
+      mantissa = formatFractionalPart(mantissa, precision - 1, false);
+    } else {
       mantissa = stripTrailingZeros(mantissa);
     }
     return mantissa.append(Seq.ch('e')).append(layout.getExponent());
@@ -291,7 +293,7 @@ public final class SeqFormatter {
       v0 = formatGDecimal(context, layout, precision);
     } else {
       // Use scientific ('e'-style) representation
-      v0 = formatGScientific(context, layout);
+      v0 = formatGScientific(context, layout, precision);
     }
 
     return signAndJustify(context, v0, value.isNegative());
-- 
2.43.0


From c7ac5c3f669ff5b0300bf22ccc2d68ecf70527e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:27 +0000
Subject: [PATCH 09/22] fix: reject Integer.MIN_VALUE as a '*' width

Negating it leaves it unchanged, and the result was taken for the marker of
an unresolved '*' width, so the value was silently accepted. Every other
width beyond the limit is rejected.
---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..c535ed6 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -102,6 +102,9 @@ public final class DefaultAppender implements Appender {
       int w = nextInt(traitsIterator);
       if (w >= 0) {
         context = context.setWidth(w);
+      } else if (w == Integer.MIN_VALUE) {
+        // Cannot be negated, and FormatContext reserves the value for a '*' width.
+        throw new PrintfException("Width %s is out of range", w);
       } else {
         context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
       }
-- 
2.43.0


From d9416b045a50fb60d3e36f95e4ec32ed37caf0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:37 +0000
Subject: [PATCH 10/22] fix: a literal percent sign with flags or width takes
 no argument

'%5%' consumed an argument, or failed for want of one.
---
 src/main/java/io/fastprintf/Compiler.java | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..d85f742 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -58,7 +58,12 @@ final class Compiler {
       dateTimeFormatter = dateTimeFormatter();
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
-    appenders.add(new DefaultAppender(specifier, context));
+    if (specifier == Specifier.PERCENT_SIGN) {
+      // e.g. "%5%": a literal '%' takes no argument
+      appenders.add(new FixedStringAppender("%"));
+    } else {
+      appenders.add(new DefaultAppender(specifier, context));
+    }
     parseNext();
   }
 
-- 
2.43.0


From 188feb48e4ad4737d855ef6d9a37eb8fabbe9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:45 +0000
Subject: [PATCH 11/22] fix: compile format strings of any length without
 recursion

The compiler recursed once per directive, so a format string with a few
thousand of them ended in a StackOverflowError.
---
 src/main/java/io/fastprintf/Compiler.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index d85f742..eda6484 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -64,7 +64,6 @@ final class Compiler {
     } else {
       appenders.add(new DefaultAppender(specifier, context));
     }
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
@@ -214,8 +213,7 @@ final class Compiler {
       return;
     }
     appenders.add(new FixedStringAppender(source.substring(lookahead, nextPercent)));
-    lookahead = nextPercent + 1;
-    forPattern();
+    lookahead = nextPercent;
   }
 
   List<Appender> getAppenders() {
-- 
2.43.0


From 45e694783f35bee586a3f81542d4bbc9166da757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:52 +0000
Subject: [PATCH 12/22] fix: return an unmodifiable list from Args.values()

The list is documented as unmodifiable.
---
 src/main/java/io/fastprintf/ArgsImpl.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/ArgsImpl.java b/src/main/java/io/fastprintf/ArgsImpl.java
index 37dc4d5..6cd7265 100644
--- a/src/main/java/io/fastprintf/ArgsImpl.java
+++ b/src/main/java/io/fastprintf/ArgsImpl.java
@@ -5,6 +5,7 @@ import java.math.BigDecimal;
 import java.math.BigInteger;
 import java.time.temporal.TemporalAccessor;
 import java.util.ArrayList;
+import java.util.Collections;
 import java.util.Iterator;
 import java.util.List;
 import java.util.function.BiFunction;
@@ -63,7 +64,7 @@ final class ArgsImpl implements Args {
     for (FormatTraits trait : traits) {
       values.add(trait.asObject());
     }
-    return values;
+    return Collections.unmodifiableList(values);
   }
 
   @Override
-- 
2.43.0


From 32b7f82b9cac385e5a16f59a4ac57ae08232bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:26 +0000
Subject: [PATCH 13/22] fix: keep nested format calls from sharing the cached
 builder

With the thread-local cache enabled, an argument whose toString() formats
with the same instance cleared and reused the builder of the enclosing call,
so the outer result was corrupted. The builder is now taken out of the cache
while a call is using it.
---
 .../java/io/fastprintf/FastPrintfImpl.java    | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..5cc779d 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,13 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            if (builder == null) {
+              // The cached builder is in use by an enclosing call on this thread, e.g. when
+              // an argument's toString() formats with the same instance.
+              return new StringBuilder(requiredCapacity);
+            }
+            // Taken out of the cache until the call that is using it returns.
+            threadLocalBuilder.set(null);
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +55,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -83,11 +89,17 @@ final class FastPrintfImpl implements FastPrintf {
     StringBuilder builder = stringBuilderFactory.apply(stringBuilderInitialCapacity);
     // OPTIMIZATION: Create the consumer ONCE.
     // This reduces allocation from O(N) to O(1) where N is the number of appenders.
-    Consumer<Seq> consumer = seq -> seq.appendTo(builder);
-    for (Appender appender : appenders) {
-      appender.append(consumer, iterator);
+    try {
+      Consumer<Seq> consumer = seq -> seq.appendTo(builder);
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    } finally {
+      if (threadLocalBuilder != null) {
+        threadLocalBuilder.set(builder);
+      }
     }
-    return builder.toString();
   }
 
   @Override
-- 
2.43.0


From d4ae6da0e3b26f2dedfbf7255e636dbc2cb2f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:38 +0000
Subject: [PATCH 14/22] fix: leave a zero width out of the pattern text

A context with width 0 printed the width as '0', which reads back as the
zero-padding flag, and '00' (flag and width) does not compile at all.
---
 src/main/java/io/fastprintf/FormatContext.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/FormatContext.java b/src/main/java/io/fastprintf/FormatContext.java
index 3e8675f..749c586 100644
--- a/src/main/java/io/fastprintf/FormatContext.java
+++ b/src/main/java/io/fastprintf/FormatContext.java
@@ -160,7 +160,8 @@ public final class FormatContext implements Serializable {
     }
     if (width == PRECEDING) {
       builder.append('*');
-    } else if (width != UNSET) {
+    } else if (width > 0) {
+      // A zero width has no effect, and written out it would read as the '0' flag.
       builder.append(width);
     }
     if (precision == PRECEDING) {
-- 
2.43.0


From 7ffc2f2eed9c33def53ba9e689c8f26dc3df2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:33 +0000
Subject: [PATCH 15/22] fix: format java.sql.Date and java.sql.Time with %t

Their toInstant() throws UnsupportedOperationException, which escaped from
format(). The epoch milliseconds are used instead.
---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index 7412df5..73e5eda 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -5,6 +5,7 @@ import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
 import java.lang.reflect.Array;
+import java.time.Instant;
 import java.time.temporal.TemporalAccessor;
 import java.util.Arrays;
 import java.util.Base64;
@@ -53,6 +54,15 @@ public final class ObjectTraits implements FormatTraits {
     return Utils.join(new StringBuilder().append('['), ", ", array).append(']').toString();
   }
 
+  private static Instant toInstant(Date date) {
+    try {
+      return date.toInstant();
+    } catch (UnsupportedOperationException e) {
+      // java.sql.Date and java.sql.Time have no toInstant()
+      return Instant.ofEpochMilli(date.getTime());
+    }
+  }
+
   @Override
   public String asString() {
     Class<?> type = value.getClass();
@@ -93,7 +103,7 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      return ((Date) value).toInstant();
+      return toInstant((Date) value);
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
-- 
2.43.0


From 9680036b64ff4c87a46ca49159941063dba5b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:27 +0000
Subject: [PATCH 16/22] fix: refuse to join sequences longer than
 Integer.MAX_VALUE

The length of a concatenation or join of sequences could overflow and
turn negative. Such a sequence is now refused with an ArithmeticException.
---
 src/main/java/io/fastprintf/seq/Concat.java | 5 ++++-
 src/main/java/io/fastprintf/seq/Seq.java    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/seq/Concat.java b/src/main/java/io/fastprintf/seq/Concat.java
index 364e47f..56928c8 100644
--- a/src/main/java/io/fastprintf/seq/Concat.java
+++ b/src/main/java/io/fastprintf/seq/Concat.java
@@ -74,7 +74,10 @@ final class Concat implements AtomicSeqIterable {
 
   private static Concat concat0(Seq left, Seq right) {
     return new Concat(
-        left, right, left.length() + right.length(), left.elementCount() + right.elementCount());
+        left,
+        right,
+        Math.addExact(left.length(), right.length()), // a length beyond int would turn negative
+        left.elementCount() + right.elementCount());
   }
 
   @Override
diff --git a/src/main/java/io/fastprintf/seq/Seq.java b/src/main/java/io/fastprintf/seq/Seq.java
index f666330..a3ad4dd 100644
--- a/src/main/java/io/fastprintf/seq/Seq.java
+++ b/src/main/java/io/fastprintf/seq/Seq.java
@@ -260,7 +260,7 @@ public interface Seq extends CharSequence {
     int totalLength = 0;
     for (AtomicSeq seq : atomicSeqs) {
       Preconditions.checkNotNull(seq, "seqElement");
-      totalLength += seq.length();
+      totalLength = Math.addExact(totalLength, seq.length());
     }
 
     return new SeqArray(atomicSeqs.toArray(new AtomicSeq[0]), totalLength);
-- 
2.43.0


From 81d40cf76850462733741b4f4b29d8ae8d289486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:20 +0000
Subject: [PATCH 17/22] fix: refuse times whose epoch milliseconds do not fit a
 long

Instant.MAX and the like let an ArithmeticException escape from %d, %x and
the other integer conversions.  They are now refused with PrintfException,
as every other value that has no number.
---
 src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
index f2d4686..36ad602 100644
--- a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
+++ b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
@@ -48,7 +48,8 @@ public final class TemporalAccessorTraits implements FormatTraits {
     try {
       // The most robust way to get epoch milliseconds is also via Instant.
       return Instant.from(value).toEpochMilli();
-    } catch (DateTimeException e) {
+    } catch (DateTimeException | ArithmeticException e) {
+      // ArithmeticException: the milliseconds of a far away instant do not fit a long
       throw new PrintfException("Can't get epoch milliseconds from: %s", value, e);
     }
   }
-- 
2.43.0


From 7f099e17385c9e7e0f73a86a60a6a51a818769c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:20 +0000
Subject: [PATCH 18/22] fix: print null for an argument whose toString returns
 null

%s let a NullPointerException about an internal parameter escape when the
text of an argument was null.  It now prints null, as string concatenation
and String.format do.
---
 src/main/java/io/fastprintf/traits/FormatTraits.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/FormatTraits.java b/src/main/java/io/fastprintf/traits/FormatTraits.java
index 80e9609..67cb233 100644
--- a/src/main/java/io/fastprintf/traits/FormatTraits.java
+++ b/src/main/java/io/fastprintf/traits/FormatTraits.java
@@ -164,6 +164,6 @@ public interface FormatTraits {
    * @return a {@code Seq} representing the argument.
    */
   default Seq asSeq() {
-    return Seq.wrap(asString());
+    return Seq.wrap(String.valueOf(asString()));
   }
 }
-- 
2.43.0


From 18f9d173b1bf69316097c3ae5210ab59d9227cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:21 +0000
Subject: [PATCH 19/22] fix: print tiny BigDecimals without expanding them to
 their full scale

%f and the integer conversions divided a BigDecimal by ten to the power of
its scale.  For 1E-30000000 that took many seconds, and for exponents below
that an ArithmeticException escaped.  A number that is smaller than half of
the last printed digit is now printed as zero right away.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 +++++-
 src/main/java/io/fastprintf/traits/BigDecimalTraits.java  | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 07c7b89..686f850 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -169,7 +169,11 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale > precision) {
       // more "scale" digits than the requested "precision"
       int compPrec = value.precision();
-      if (compPrec <= scale) {
+      if (compPrec < scale - precision) {
+        // less than half of the last digit printed; dividing by a power of ten as large as the
+        // scale could take forever, or overflow
+        value = BigDecimal.valueOf(0, precision);
+      } else if (compPrec <= scale) {
         // case of 0.xxxxxx
         value = value.setScale(precision, RoundingMode.HALF_UP);
       } else {
diff --git a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
index 476b1e9..b005da8 100644
--- a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
@@ -3,6 +3,7 @@ package io.fastprintf.traits;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import java.math.BigDecimal;
+import java.math.BigInteger;
 
 public final class BigDecimalTraits implements FormatTraits {
 
@@ -14,7 +15,9 @@ public final class BigDecimalTraits implements FormatTraits {
 
   @Override
   public IntForm asIntForm() {
-    return IntForm.valueOf(value.toBigInteger());
+    // toBigInteger() would divide by a power of ten as large as the scale
+    boolean fraction = value.precision() <= value.scale();
+    return IntForm.valueOf(fraction ? BigInteger.ZERO : value.toBigInteger());
   }
 
   @Override
-- 
2.43.0


From 81e4a38c6ffb2de880c97f691ad419eafc284c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:08 +0000
Subject: [PATCH 20/22] fix: refuse null parts of empty sequences and
 one-element joins

EmptySeq.append(null), EmptySeq.prepend(null) and Seq.join of a list holding
one null returned null. Every other sequence refuses null at once.
---
 src/main/java/io/fastprintf/seq/EmptySeq.java | 5 +++--
 src/main/java/io/fastprintf/seq/Seq.java      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/seq/EmptySeq.java b/src/main/java/io/fastprintf/seq/EmptySeq.java
index cebd7a7..b983f13 100644
--- a/src/main/java/io/fastprintf/seq/EmptySeq.java
+++ b/src/main/java/io/fastprintf/seq/EmptySeq.java
@@ -1,5 +1,6 @@
 package io.fastprintf.seq;
 
+import io.fastprintf.util.Preconditions;
 import java.io.IOException;
 
 final class EmptySeq implements AtomicSeq {
@@ -10,12 +11,12 @@ final class EmptySeq implements AtomicSeq {
 
   @Override
   public Seq prepend(Seq seq) {
-    return seq;
+    return Preconditions.checkNotNull(seq, "seq");
   }
 
   @Override
   public Seq append(Seq seq) {
-    return seq;
+    return Preconditions.checkNotNull(seq, "seq");
   }
 
   @Override
diff --git a/src/main/java/io/fastprintf/seq/Seq.java b/src/main/java/io/fastprintf/seq/Seq.java
index a3ad4dd..8d88c20 100644
--- a/src/main/java/io/fastprintf/seq/Seq.java
+++ b/src/main/java/io/fastprintf/seq/Seq.java
@@ -255,7 +255,7 @@ public interface Seq extends CharSequence {
       return empty();
     }
     if (atomicSeqs.size() == 1) {
-      return atomicSeqs.get(0);
+      return Preconditions.checkNotNull(atomicSeqs.get(0), "seqElement");
     }
     int totalLength = 0;
     for (AtomicSeq seq : atomicSeqs) {
-- 
2.43.0


From 24bd8edd3c547cbf0d76c08bd997d405da56c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:20:27 +0000
Subject: [PATCH 21/22] fix: refuse sequences of more parts than an int can
 count

The number of parts of a concatenation was added without a check.
Empty parts count without adding to the length, so it could turn negative
although the length was fine, and upperCase() then failed.
---
 src/main/java/io/fastprintf/seq/Concat.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/Concat.java b/src/main/java/io/fastprintf/seq/Concat.java
index 56928c8..a957a86 100644
--- a/src/main/java/io/fastprintf/seq/Concat.java
+++ b/src/main/java/io/fastprintf/seq/Concat.java
@@ -77,7 +77,7 @@ final class Concat implements AtomicSeqIterable {
         left,
         right,
         Math.addExact(left.length(), right.length()), // a length beyond int would turn negative
-        left.elementCount() + right.elementCount());
+        Math.addExact(left.elementCount(), right.elementCount())); // empty parts count, too
   }
 
   @Override
-- 
2.43.0


From 6b125ab347bc3aebafefd7c04642cf81a26ec9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:20:27 +0000
Subject: [PATCH 22/22] fix: join a first element whose toString throws like
 any other

Joining an iterable or iterator let the exception of its first element
escape, while later elements and all elements of arrays are replaced by a
note of the exception.
---
 src/main/java/io/fastprintf/util/Utils.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/util/Utils.java b/src/main/java/io/fastprintf/util/Utils.java
index 0b72b3c..1d62e33 100644
--- a/src/main/java/io/fastprintf/util/Utils.java
+++ b/src/main/java/io/fastprintf/util/Utils.java
@@ -112,7 +112,7 @@ public final class Utils {
 
   private static StringBuilder joinIterator(StringBuilder sb, String separator, Iterator<?> it) {
     if (!it.hasNext()) return sb;
-    sb.append(it.next());
+    sb.append(lenientToString(it.next()));
     while (it.hasNext()) {
       sb.append(separator).append(lenientToString(it.next()));
     }
-- 
2.43.0

