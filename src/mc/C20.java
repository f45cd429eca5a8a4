package mc;

import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.CharBuffer;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import java.util.Optional;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.LongAdder;

/** Conversion x argument matrix. */
final class C20 extends Check {

  static final String CONV = "diuoxXfFeEgGaAcsStTnp";

  /** A Number of our own with different answers for each view. */
  @SuppressWarnings("serial")
  static final class OwnNumber extends Number {
    final int i;
    final long l;
    final double d;

    OwnNumber(int i, long l, double d) {
      this.i = i;
      this.l = l;
      this.d = d;
    }

    @Override
    public int intValue() {
      return i;
    }

    @Override
    public long longValue() {
      return l;
    }

    @Override
    public float floatValue() {
      return (float) d;
    }

    @Override
    public double doubleValue() {
      return d;
    }

    @Override
    public String toString() {
      return "own number";
    }
  }

  @SuppressWarnings("serial")
  static final class OwnDecimal extends BigDecimal {
    OwnDecimal(String s) {
      super(s);
    }
  }

  @SuppressWarnings("serial")
  static final class OwnInteger extends BigInteger {
    OwnInteger(String s) {
      super(s);
    }
  }

  @SuppressWarnings("serial")
  static final class OwnDate extends java.util.Date {
    OwnDate(long t) {
      super(t);
    }
  }

  @SuppressWarnings("serial")
  static final class OwnCalendar extends java.util.GregorianCalendar {
    OwnCalendar(long t) {
      super(java.util.TimeZone.getTimeZone("Asia/Tokyo"));
      setTimeInMillis(t);
    }
  }

  /** Has no text: toString returns null. */
  static class NoText {
    @Override
    public String toString() {
      return null;
    }
  }

  private static final java.time.LocalDate DAY = java.time.LocalDate.of(2024, 2, 29);

  /** A time without text. */
  static final class NoTextTime extends NoText implements java.time.temporal.TemporalAccessor {
    @Override
    public boolean isSupported(java.time.temporal.TemporalField field) {
      return DAY.isSupported(field);
    }

    @Override
    public long getLong(java.time.temporal.TemporalField field) {
      return DAY.getLong(field);
    }
  }

  static void both(List<Object> l, Object... vs) {
    for (Object v : vs) {
      l.add(v);
      l.add(new Ref.Prim(v));
    }
  }

  static List<Object> arguments() {
    List<Object> l = new ArrayList<>();
    l.add(null);
    both(l, true, false);
    both(l, '\u0000', '0', 'a', 'é', '\ud83d', '￿');
    both(l, (byte) 0, (byte) 65, (byte) -1, Byte.MIN_VALUE, Byte.MAX_VALUE);
    both(l, (short) 0, (short) 300, (short) -1, Short.MIN_VALUE, Short.MAX_VALUE);
    both(l, 0, 65, -1, 65535, 65536, 65601, -65536, -65537, Integer.MIN_VALUE, Integer.MAX_VALUE);
    both(l, 0L, 65L, -1L, 4294967296L + 65, 1L << 31, 1L << 32, -(1L << 31) - 1, Long.MIN_VALUE, Long.MAX_VALUE);
    both(l, 0f, -0f, 1.5f, -1.5f, 2.5f, 0.49999997f, 65.4f, 65.5f, 1e10f, -1e10f, 16777217f, Float.MIN_VALUE, Float.MAX_VALUE, Float.NaN, Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY, 2147483648f, 0.1f);
    both(l, 0d, -0d, 0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, 65.5, 65.49, 65535.5, 1e18, 1e19, -1e19, 9007199254740993d, 2147483647.5, 4294967296.4, Double.MIN_VALUE, Double.MAX_VALUE, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, 0.1);
    for (String s : new String[] {"0", "5", "-7", "65.9", "-65.9", "1E+3", "1E-30", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "123456789012345678901234567890.5", "0.5", "-0.5", "0.00", "4294967361"}) {
      l.add(new BigDecimal(s));
      if (s.matches("-?\\d+")) l.add(new BigInteger(s));
    }
    l.add(BigInteger.ONE.shiftLeft(100));
    l.add(BigInteger.ONE.shiftLeft(100).negate());
    // classes derived from those the library knows
    for (String s : new String[] {"0", "-7", "65.9", "1E+3", "123456789012345678901234567890.5", "-0.00000000000000000000123456789012345678901"}) l.add(new OwnDecimal(s));
    for (String s : new String[] {"0", "-7", "65", "9223372036854775808", "-123456789012345678901234567890"}) l.add(new OwnInteger(s));
    l.add(new OwnDate(1700000000123L));
    l.add(new OwnDate(-1));
    l.add(new OwnCalendar(1700000000123L));
    for (String s : new String[] {
      "", " ", "a", "12", "-12", "+12", "012", " 12", "12 ", "1.5", "-1.5e3", "1e400", "-1e400", "1e-400", "NaN", "Infinity", "-Infinity", "0x10", "0x1p3", "1f", "1d", "1L", "9223372036854775807", "9223372036854775808",
      "2147483647", "2147483648", "-2147483648", "65536", "65537", "-65537", "٣٤", "null", "true", "%s", "%d%n", "1,000", "--1", "-", "+", ".", "1.", ".5", "😀", "\u0000"
    }) {
      l.add(s);
    }
    for (int k : new int[] {1, 3, 4, 7, 10, 11}) {
      l.add(C06.dress(k, "42"));
      l.add(C06.dress(k, "7.25"));
      l.add(C06.dress(k, "xyz, longer than sixteen chars"));
    }
    l.add(new StringBuilder());
    l.add(Seq.empty());
    l.add(CharBuffer.wrap(""));
    l.add(new C06.Own(""));
    l.addAll(Arrays.<Object>asList(
        new AtomicInteger(-5), new AtomicLong(1L << 40), new AtomicLong(-1), new OwnNumber(66, 1234567890123L, 2.75), new OwnNumber(-1, -1, Double.NaN), new OwnNumber(70000, 0, -0.0), new LongAdder(),
        new AtomicBoolean(true), new Object(), C07.POINTEE, Thread.State.NEW, TimeUnit.DAYS, String.class, Optional.of(1), Collections.singletonList(5), Collections.emptyMap(),
        new int[] {1, 2}, new int[0], new long[] {-1}, new short[] {1}, new byte[] {1, 2, 3}, new char[] {'4', '2'}, new char[0], new boolean[] {true}, new float[] {1.5f}, new double[] {2.5},
        new Object[] {null, "a", 1}, new Integer[] {5}, new String[0], new int[][] {}, new Exception("e"), java.util.Locale.ROOT, new java.io.File("f"), Runtime.class));
    l.addAll(C19.arguments());
    l.addAll(Arrays.<Object>asList(
        java.time.Instant.MAX, java.time.Instant.MIN, java.time.OffsetDateTime.MAX, java.time.OffsetDateTime.MIN, java.time.LocalDate.MAX, java.time.LocalDateTime.MIN, java.time.Year.of(java.time.Year.MAX_VALUE),
        java.time.Instant.ofEpochMilli(Long.MAX_VALUE), java.time.Instant.ofEpochMilli(Long.MIN_VALUE), java.time.Instant.ofEpochMilli(Long.MAX_VALUE).plusMillis(1), java.time.Instant.ofEpochMilli(Long.MIN_VALUE).minusMillis(1),
        java.time.Instant.ofEpochMilli(Long.MAX_VALUE).plusNanos(999999), java.time.Instant.ofEpochMilli(Long.MIN_VALUE).minusNanos(1),
        new java.util.Date(Long.MAX_VALUE), new java.util.Date(Long.MIN_VALUE), new java.sql.Timestamp(-1), new java.sql.Date(Long.MAX_VALUE),
        new BigDecimal("1E-2147483647"), new BigDecimal("-9.5E-1000000"), new NoText(), new NoTextTime(), new Object[] {new NoText(), "b"}));
    return l;
  }

  /** Ways to write a number with the digits N, and as many zeros Z. */
  private static final String[] NUMERIC = {
    "N", "-N", "+N", "0.N", "-0.N", ".N", "N.", "N.N", "NZ", "N.Z", "ZN", "0.ZN", "Ne5", "0.NE-5", "Ne-N", "1eZ3", "Nd", "N.5f", " N ", "\tN.5\n", "0xN", "0x1.Np3", "0x1.Zp-1000", "N_N", "N,5", "--N", "NaNN", "Infinity", "N N", "Ne", "NL", "#N"
  };

  @Override
  void define() {
    final List<Object> args = arguments();
    final String[] lays = {"", "1", "3", "12", "30", "-30", "030", "+", " ", "#", "+#-030.4", ".0", ".1", ".3", ".12", "20.0", "20.5", "020.5", "#.0", "# 025.10"};
    phase(
        "matrix",
        args.size() + " arguments of every type x " + CONV.length() + " conversions x " + lays.length + " layouts",
        p -> {
          Object v = p.pick(args);
          char c = CONV.charAt(p.choose(CONV.length()));
          Impl.check(p, "%" + p.pick(lays) + c, v);
        });
    phase(
        "all flags",
        args.size() + " arguments x " + CONV.length() + " conversions x 32 flag sets x widths 0,2,9,17 x precisions none,0,2,7",
        p -> {
          Object v = p.pick(args);
          char c = CONV.charAt(p.choose(CONV.length()));
          Impl.check(p, directive(p.pick(FLAG_SETS), p.pick(new int[] {0, 2, 9, 17}), p.pick(new int[] {-1, 0, 2, 7}), c), v);
        });
    phase(
        "stars",
        args.size() + " arguments as width, as precision and as both x " + CONV.length() + " conversions",
        p -> {
          Object v = p.pick(args);
          char c = CONV.charAt(p.choose(CONV.length()));
          Object w = "tT".indexOf(c) >= 0 ? (Object) java.time.LocalDate.of(2024, 2, 29) : "fFeEgGaA".indexOf(c) >= 0 ? (Object) 1.5 : "sS".indexOf(c) >= 0 ? "text" : (Object) 65;
          switch (p.choose(5)) {
            case 0:
              Impl.check(p, "%*" + c, v, w);
              break;
            case 1:
              Impl.check(p, "%.*" + c, v, w);
              break;
            case 2:
              Impl.check(p, "%-*.*" + c, v, v, w);
              break;
            case 3:
              Impl.check(p, "%0*" + c, v, w);
              break;
            default:
              Impl.check(p, "%*.3" + c + "%s", v, w, "after");
          }
        });
    phase(
        "pairs of arguments",
        args.size() + " arguments followed by the same under another conversion: all ordered pairs of conversions",
        p -> {
          Object v = p.pick(args);
          char c = CONV.charAt(p.choose(CONV.length()));
          char d = CONV.charAt(p.choose(CONV.length()));
          Impl.check(p, "%" + c + "|%" + d, v, v);
        });
    phase(
        "objects that have only a text",
        OnlyText.OBJECTS + " objects (dynamic proxies of " + OnlyText.INTERFACES.size() + " interfaces among them) that fail when anything but their text is asked for, alone or in an array x " + OnlyText.OTHERS.length + " formats x cached or not",
        OnlyText::others);
    phase(
        "numeric texts",
        "texts of 1 to " + (thorough ? 340 : 70) + " digits x " + NUMERIC.length + " ways to write them x 4 kinds of text x 9 conversions x 4 layouts",
        p -> {
          int n = 1 + p.choose(thorough ? 340 : 70);
          StringBuilder d = new StringBuilder();
          for (int i = 0; i < n; i++) d.append((char) ('0' + (i * 7 + 1) % 10));
          String t = p.pick(NUMERIC).replace("N", d);
          if (t.contains("Z")) t = t.replace("Z", d.toString().replaceAll(".", "0"));
          Object v;
          switch (p.choose(4)) {
            case 0:
              v = t;
              break;
            case 1:
              v = new StringBuilder(t);
              break;
            case 2:
              v = CharBuffer.wrap(t);
              break;
            default:
              v = new StringBuffer(t);
          }
          Impl.check(p, "%" + p.pick(new String[] {"", ".0", "+40.25", "-#012.9"}) + "feFEgGadx".charAt(p.choose(9)), v);
        });
    phase(
        "all shorts as chars and numbers",
        "all 65536 char, short values and all bytes x c,d,x,s,f as Character, Short, Byte, Integer, primitive or boxed",
        p -> {
          char ch = (char) (p.choose(256) << 8 | p.choose(256));
          Object v;
          switch (p.choose(4)) {
            case 0:
              v = ch;
              break;
            case 1:
              v = (short) ch;
              break;
            case 2:
              v = (int) ch - 32768;
              break;
            default:
              v = (byte) ch;
          }
          Impl.check(p, "%c%d%x%s%.1f", v, new Ref.Prim(v), v, new Ref.Prim(v), v);
        });
    assumptions.add("Exceptions raised by an argument's own methods pass through; numbers beyond long under %t are outside the property.");
  }
}
