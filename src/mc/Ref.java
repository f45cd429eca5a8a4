package mc;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.time.DateTimeException;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZonedDateTime;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Base64;
import java.util.Calendar;
import java.util.Date;
import java.util.List;

/**
 * The reference model: what a format string and an argument list must produce. Written from the
 * README, the C standard and the API documentation; slow and simple on purpose.
 */
public final class Ref {
  private Ref() {}

  public static final int LIMIT = 65536;
  public static final int UNSET = -1;
  public static final int STAR = -2;

  /** Kind of outcome. */
  public enum Kind {
    OK,
    /** rejected when compiled: PrintfSyntaxException */
    SYNTAX,
    /** rejected when compiled: number beyond the limit, PrintfException */
    TOO_BIG,
    /** both problems are present, either report is right */
    SYNTAX_OR_TOO_BIG,
    /** PrintfException while formatting */
    REFUSED,
    /** IllegalArgumentException while formatting */
    BAD_EPOCH,
    /** DateTimeException while formatting */
    DATE,
    /** an exception raised by the argument's own code */
    THROWN
  }

  /** Outcome: text is what precedes the failure for failing outcomes. */
  public static final class Out {
    public final Kind kind;
    public final String text;
    public final Throwable thrown;

    public Out(Kind kind, String text, Throwable thrown) {
      this.kind = kind;
      this.text = text;
      this.thrown = thrown;
    }

    @Override
    public String toString() {
      return kind == Kind.OK
          ? "\"" + Show.text(text) + "\""
          : kind + (thrown == null ? "" : "(" + thrown + ")");
    }

    @Override
    public int hashCode() {
      return kind.ordinal() * 31 + (kind == Kind.OK ? text.hashCode() : 0);
    }

    @Override
    public boolean equals(Object o) {
      if (!(o instanceof Out)) return false;
      Out x = (Out) o;
      return kind == x.kind && (kind != Kind.OK || text.equals(x.text));
    }
  }

  /** A value handed over through a primitive putter. */
  public static final class Prim {
    public final Object boxed;

    public Prim(Object boxed) {
      this.boxed = boxed;
    }

    @Override
    public String toString() {
      return "prim " + boxed;
    }
  }

  /** An argument whose string form the model must know without calling it. */
  public interface Modelled {
    /** The text its toString returns, or an exception it raises. */
    String modelText();
  }

  @SuppressWarnings("serial")
  static final class Stop extends RuntimeException {
    final Kind kind;

    Stop(Kind kind) {
      super(null, null, false, false);
      this.kind = kind;
    }
  }

  /** One directive or, if {@code literal} is set, a piece of text. */
  public static final class Dir {
    public String literal;
    public boolean minus, alt, plus, space, zero;
    public int width = UNSET;
    public int prec = UNSET;
    public char conv;
    public DateTimeFormatter dtf;

    Dir copy() {
      Dir d = new Dir();
      d.literal = literal;
      d.minus = minus;
      d.alt = alt;
      d.plus = plus;
      d.space = space;
      d.zero = zero;
      d.width = width;
      d.prec = prec;
      d.conv = conv;
      d.dtf = dtf;
      return d;
    }
  }

  /** A parsed format string, or the reason for its rejection. */
  public static final class Program {
    public Kind reject; // null if accepted
    public final List<Dir> dirs = new ArrayList<>();
  }

  // ---------------------------------------------------------------- grammar

  private static final String CONVERSIONS = "diuoxXfFeEgGaAcsStTnp%";

  public static Program parse(String fmt) {
    Program prog = new Program();
    boolean tooBig = false;
    try {
      int i = 0;
      int n = fmt.length();
      while (i < n) {
        if (fmt.charAt(i) != '%') {
          int j = fmt.indexOf('%', i);
          if (j < 0) j = n;
          Dir d = new Dir();
          d.literal = fmt.substring(i, j);
          prog.dirs.add(d);
          i = j;
          continue;
        }
        i++;
        Dir d = new Dir();
        while (i < n && "-+ #0".indexOf(fmt.charAt(i)) >= 0) {
          boolean dup;
          switch (fmt.charAt(i)) {
            case '-':
              dup = d.minus;
              d.minus = true;
              break;
            case '+':
              dup = d.plus;
              d.plus = true;
              break;
            case ' ':
              dup = d.space;
              d.space = true;
              break;
            case '#':
              dup = d.alt;
              d.alt = true;
              break;
            default:
              dup = d.zero;
              d.zero = true;
          }
          if (dup) throw new Stop(Kind.SYNTAX);
          i++;
        }
        int[] pos = {i};
        if (i < n && fmt.charAt(i) == '*') {
          d.width = STAR;
          i++;
        } else {
          int w = number(fmt, pos);
          i = pos[0];
          if (w >= 0) d.width = w;
          if (w > LIMIT) tooBig = true;
        }
        if (i < n && fmt.charAt(i) == '.') {
          i++;
          if (i < n && fmt.charAt(i) == '*') {
            d.prec = STAR;
            i++;
          } else {
            pos[0] = i;
            int p = number(fmt, pos);
            i = pos[0];
            d.prec = p < 0 ? 0 : p;
            if (p > LIMIT) tooBig = true;
          }
        }
        if (i >= n) throw new Stop(Kind.SYNTAX);
        char c = fmt.charAt(i++);
        if (CONVERSIONS.indexOf(c) < 0) throw new Stop(Kind.SYNTAX);
        d.conv = c;
        if ((c == 't' || c == 'T') && i < n && fmt.charAt(i) == '{') {
          int end = -1;
          boolean quoted = false;
          for (int j = i + 1; j < n; j++) {
            char x = fmt.charAt(j);
            if (x == '\'') quoted = !quoted;
            if (x == '}' && !quoted) {
              end = j;
              break;
            }
          }
          if (end < 0 || end == i + 1) throw new Stop(Kind.SYNTAX);
          try {
            d.dtf = DateTimeFormatter.ofPattern(fmt.substring(i + 1, end));
          } catch (IllegalArgumentException e) {
            throw new Stop(Kind.SYNTAX);
          }
          i = end + 1;
        }
        if (c == '%') {
          d = new Dir();
          d.literal = "%";
        }
        prog.dirs.add(d);
      }
      if (tooBig) prog.reject = Kind.TOO_BIG;
    } catch (Stop s) {
      prog.reject = tooBig ? Kind.SYNTAX_OR_TOO_BIG : Kind.SYNTAX;
    }
    return prog;
  }

  private static int number(String s, int[] pos) {
    int i = pos[0];
    int start = i;
    while (i < s.length() && s.charAt(i) >= '0' && s.charAt(i) <= '9') i++;
    pos[0] = i;
    if (i == start) return -1;
    BigInteger v = new BigInteger(s.substring(start, i));
    if (v.bitLength() > 31) throw new Stop(Kind.SYNTAX);
    return v.intValue();
  }

  // ---------------------------------------------------------------- running

  public static Out format(String fmt, Object... args) {
    Program p = parse(fmt);
    if (p.reject != null) return new Out(p.reject, "", null);
    return format(p, args);
  }

  public static Out format(Program p, Object... args) {
    StringBuilder out = new StringBuilder();
    int next = 0;
    try {
      for (Dir dir : p.dirs) {
        if (dir.literal != null) {
          out.append(dir.literal);
          continue;
        }
        Dir d = dir;
        if (d.width == STAR || d.prec == STAR) d = d.copy();
        if (d.width == STAR) {
          if (next >= args.length) throw new Stop(Kind.REFUSED);
          int w = starInt(args[next++]);
          if (w > LIMIT || w < -LIMIT) throw new Stop(Kind.REFUSED);
          if (w < 0) d.minus = true;
          d.width = Math.abs(w);
        }
        if (d.prec == STAR) {
          if (next >= args.length) throw new Stop(Kind.REFUSED);
          int q = starInt(args[next++]);
          if (q > LIMIT) throw new Stop(Kind.REFUSED);
          d.prec = q < 0 ? UNSET : q;
        }
        if (next >= args.length) throw new Stop(Kind.REFUSED);
        out.append(one(d, args[next++]));
      }
    } catch (Stop s) {
      return new Out(s.kind, out.toString(), null);
    } catch (Raised r) {
      return new Out(Kind.THROWN, out.toString(), r.getCause());
    }
    return new Out(Kind.OK, out.toString(), null);
  }

  @SuppressWarnings("serial")
  static final class Raised extends RuntimeException {
    Raised(Throwable t) {
      super(null, t, false, false);
    }
  }

  static String one(Dir d, Object arg) {
    switch (d.conv) {
      case 'd':
      case 'i':
      case 'u':
      case 'o':
      case 'x':
        return integer(d, integral(arg));
      case 'X':
        return upper(integer(d, integral(arg)));
      case 'f':
      case 'e':
      case 'g':
      case 'a':
        return floating(d, d.conv, floatValue(arg));
      case 'F':
      case 'E':
      case 'G':
      case 'A':
        return upper(floating(d, (char) (d.conv + 32), floatValue(arg)));
      case 'c':
        return pad(d, "", String.valueOf(charOf(arg)), false);
      case 's':
      case 'S':
        {
          String s = text(arg);
          if (d.prec != UNSET && d.prec < s.length()) s = s.substring(0, d.prec);
          s = pad(d, "", s, false);
          return d.conv == 'S' ? upper(s) : s;
        }
      case 't':
        return date(d, arg);
      case 'T':
        return upper(date(d, arg));
      case 'p':
        if (arg instanceof Prim) throw new Stop(Kind.REFUSED);
        return pad(d, "", pointer(arg), false);
      case 'n':
        return "";
      default:
        throw new AssertionError(d.conv);
    }
  }

  static String pointer(Object o) {
    if (o == null) return "null";
    return o.getClass().getName() + "@" + Integer.toHexString(System.identityHashCode(o));
  }

  static String zeros(int n) {
    return repeat('0', n);
  }

  static String repeat(char c, int n) {
    if (n <= 0) return "";
    char[] a = new char[n];
    Arrays.fill(a, c);
    return new String(a);
  }

  static String upper(String s) {
    char[] a = s.toCharArray();
    for (int i = 0; i < a.length; i++) {
      if (a[i] >= 'a' && a[i] <= 'z') a[i] = (char) (a[i] - 'a' + 'A');
    }
    return new String(a);
  }

  /** Pads prefix+body to the width; zeros go between them if {@code zeroPad}. */
  static String pad(Dir d, String prefix, String body, boolean zeroPad) {
    int missing = d.width - prefix.length() - body.length();
    if (missing <= 0) return prefix + body;
    if (d.minus) return prefix + body + repeat(' ', missing);
    if (zeroPad && d.zero) return prefix + zeros(missing) + body;
    return repeat(' ', missing) + prefix + body;
  }

  static String sign(Dir d, boolean negative) {
    return negative ? "-" : d.plus ? "+" : d.space ? " " : "";
  }

  // ---------------------------------------------------------------- integers

  /** An integer together with its width in bits (0 = unbounded). */
  static final class Int {
    final BigInteger v;
    final int bits;

    Int(BigInteger v, int bits) {
      this.v = v;
      this.bits = bits;
    }

    Int(long v, int bits) {
      this(BigInteger.valueOf(v), bits);
    }
  }

  static String integer(Dir d, Int n) {
    boolean signed = d.conv == 'd' || d.conv == 'i';
    BigInteger v = n.v;
    if (!signed && v.signum() < 0) {
      if (n.bits == 0) throw new Stop(Kind.REFUSED);
      v = v.add(BigInteger.ONE.shiftLeft(n.bits));
    }
    int radix = d.conv == 'o' ? 8 : d.conv == 'x' || d.conv == 'X' ? 16 : 10;
    String digits = v.signum() == 0 ? "" : v.abs().toString(radix);
    int min = d.prec == UNSET ? 1 : d.prec;
    digits = zeros(min - digits.length()) + digits;
    String prefix = signed ? sign(d, v.signum() < 0) : "";
    if (d.alt) {
      if (radix == 8 && !digits.startsWith("0")) digits = "0" + digits;
      if (radix == 16 && v.signum() != 0) prefix = "0x";
    }
    return pad(d, prefix, digits, d.prec == UNSET);
  }

  // ---------------------------------------------------------------- floating point

  static String floating(Dir d, char conv, Object value) {
    boolean negative;
    BigDecimal abs;
    if (value instanceof Double) {
      double x = (Double) value;
      if (Double.isNaN(x)) return pad(d, "", "NaN", false);
      negative = Double.doubleToRawLongBits(x) < 0;
      if (Double.isInfinite(x)) return pad(d, sign(d, negative), "Infinity", false);
      if (conv == 'a') return pad(d, sign(d, negative) + "0x", hex(Math.abs(x), d.prec), true);
      abs = Shortest.decimal(Math.abs(x));
    } else {
      if (conv == 'a') throw new Stop(Kind.REFUSED);
      BigDecimal x = (BigDecimal) value;
      negative = x.signum() < 0;
      abs = x.abs();
    }
    int p = d.prec == UNSET ? 6 : d.prec;
    String body;
    if (conv == 'f') {
      body = fixed(abs, p, d.alt);
    } else if (conv == 'e') {
      body = scientific(abs, p, d.alt);
    } else {
      if (p == 0) p = 1;
      long x = abs.signum() == 0 ? 0 : exponent(abs.round(new MathContext(p, RoundingMode.HALF_UP)));
      if (x >= -4 && x < p) {
        body = fixed(abs, (int) (p - 1 - x), d.alt);
        if (!d.alt) body = strip(body);
      } else {
        // In this style the product never adds a bare point (pinned by its tests).
        body = scientific(abs, p - 1, false);
        if (!d.alt) {
          int e = body.indexOf('e');
          body = strip(body.substring(0, e)) + body.substring(e);
        }
      }
    }
    return pad(d, sign(d, negative), body, true);
  }

  static long exponent(BigDecimal v) {
    return (long) v.precision() - v.scale() - 1;
  }

  static String fixed(BigDecimal abs, int p, boolean alt) {
    boolean nothing = exponent(abs) < -p - 1; // below a tenth of the last digit
    String s = (nothing ? BigDecimal.valueOf(0, p) : abs.setScale(p, RoundingMode.HALF_UP)).toPlainString();
    return alt && p == 0 ? s + "." : s;
  }

  static String scientific(BigDecimal abs, int p, boolean alt) {
    String digits;
    long x;
    if (abs.signum() == 0) {
      digits = "0";
      x = 0;
    } else {
      BigDecimal r = abs.round(new MathContext(p + 1, RoundingMode.HALF_UP));
      digits = r.unscaledValue().toString();
      x = exponent(r);
    }
    digits = digits + zeros(p + 1 - digits.length());
    String m = digits.substring(0, 1);
    if (p > 0) m = m + "." + digits.substring(1, p + 1);
    else if (alt) m = m + ".";
    String e = Long.toString(Math.abs(x));
    return m + "e" + (x < 0 ? "-" : "+") + (e.length() < 2 ? "0" : "") + e;
  }

  static String strip(String s) {
    if (s.indexOf('.') < 0) return s;
    int n = s.length();
    while (s.charAt(n - 1) == '0') n--;
    if (s.charAt(n - 1) == '.') n--;
    return s.substring(0, n);
  }

  static String hex(double abs, int prec) {
    long bits = Double.doubleToRawLongBits(abs);
    int be = (int) (bits >>> 52);
    long frac = bits & 0xFFFFFFFFFFFFFL;
    if (prec == 0) prec = 1;
    String lead;
    String digits;
    int e;
    if (bits == 0) {
      lead = "0";
      digits = "0";
      e = 0;
    } else if (prec == UNSET || prec >= 13) {
      lead = be == 0 ? "0" : "1";
      e = be == 0 ? -1022 : be - 1023;
      digits = Long.toHexString(frac | 1L << 52).substring(1);
      int n = 13;
      while (n > 1 && digits.charAt(n - 1) == '0') n--;
      digits = digits.substring(0, n);
    } else {
      BigInteger sig; // 53 bits, the first one set
      if (be == 0) {
        int shift = 53 - (64 - Long.numberOfLeadingZeros(frac));
        sig = BigInteger.valueOf(frac).shiftLeft(shift);
        e = -1022 - shift;
      } else {
        sig = BigInteger.valueOf(frac | 1L << 52);
        e = be - 1023;
      }
      BigInteger unit = BigInteger.ONE.shiftLeft(52 - 4 * prec);
      BigInteger[] qr = sig.divideAndRemainder(unit);
      BigInteger q = qr[0];
      int cmp = qr[1].shiftLeft(1).compareTo(unit);
      if (cmp > 0 || cmp == 0 && q.testBit(0)) q = q.add(BigInteger.ONE);
      if (q.bitLength() > 4 * prec + 1) {
        q = q.shiftRight(1);
        e++;
      }
      String h = q.toString(16);
      lead = h.substring(0, 1);
      digits = h.substring(1);
    }
    if (prec != UNSET) digits = digits + zeros(prec - digits.length());
    return lead + "." + digits + "p" + (e < 0 ? "-" : "+") + Math.abs(e);
  }

  // ---------------------------------------------------------------- dates

  static String date(Dir d, Object arg) {
    TemporalAccessor t = temporal(arg);
    String s;
    try {
      if (d.dtf != null) {
        s = d.dtf.format(t);
      } else if (t instanceof Instant) {
        s = DateTimeFormatter.ISO_OFFSET_DATE_TIME.format(((Instant) t).atZone(ZoneId.systemDefault()));
      } else if (t instanceof OffsetDateTime || t instanceof ZonedDateTime) {
        s = DateTimeFormatter.ISO_OFFSET_DATE_TIME.format(t);
      } else if (t instanceof LocalDateTime) {
        s = DateTimeFormatter.ISO_LOCAL_DATE_TIME.format(t);
      } else if (t instanceof LocalDate) {
        s = DateTimeFormatter.ISO_LOCAL_DATE.format(t);
      } else {
        throw new Stop(Kind.REFUSED);
      }
    } catch (DateTimeException e) {
      throw new Stop(Kind.DATE);
    }
    return pad(d, "", s, false);
  }

  static Instant epoch(long v) {
    if (v < 0) throw new Stop(Kind.BAD_EPOCH);
    return v <= 4294967295L ? Instant.ofEpochSecond(v) : Instant.ofEpochMilli(v);
  }

  // ---------------------------------------------------------------- conversion matrix

  private static Object unwrap(Object a) {
    return a instanceof Prim ? ((Prim) a).boxed : a;
  }

  private static Stop refused() {
    return new Stop(Kind.REFUSED);
  }

  static Int integral(Object arg) {
    Object a = unwrap(arg);
    if (a instanceof Boolean) return new Int((Boolean) a ? 1 : 0, 32);
    if (a instanceof Character) return new Int((Character) a, 32);
    if (a instanceof Byte) return new Int((Byte) a, 8);
    if (a instanceof Short) return new Int((Short) a, 16);
    if (a instanceof Integer) return new Int((Integer) a, 32);
    if (a instanceof Long) return new Int((Long) a, 64);
    if (a instanceof Float) return new Int((int) (float) (Float) a, 32);
    if (a instanceof Double) return new Int((long) (double) (Double) a, 64);
    if (a instanceof BigInteger) return new Int((BigInteger) a, 0);
    if (a instanceof BigDecimal) return new Int(exponent((BigDecimal) a) < 0 ? BigInteger.ZERO : ((BigDecimal) a).toBigInteger(), 0);
    if (a instanceof CharSequence) {
      try {
        return new Int(Long.parseLong(text(a)), 64);
      } catch (NumberFormatException e) {
        throw refused();
      }
    }
    if (a instanceof TemporalAccessor) {
      Instant i = instant(a);
      BigInteger millis = BigInteger.valueOf(i.getEpochSecond()).multiply(BigInteger.valueOf(1000)).add(BigInteger.valueOf(i.getNano() / 1000000));
      if (millis.bitLength() > 63) throw refused();
      return new Int(millis.longValue(), 64);
    }
    if (a instanceof Date) return new Int(((Date) a).getTime(), 64);
    if (a instanceof Calendar) return new Int(((Calendar) a).getTimeInMillis(), 64);
    if (a instanceof Number) return new Int(((Number) a).longValue(), 64);
    throw refused();
  }

  private static Instant instant(Object a) {
    try {
      return Instant.from((TemporalAccessor) a);
    } catch (DateTimeException e) {
      throw refused();
    }
  }

  /** Double or BigDecimal. */
  static Object floatValue(Object arg) {
    Object a = unwrap(arg);
    if (a instanceof Boolean) return (Boolean) a ? 1d : 0d;
    if (a instanceof Character) return (double) (Character) a;
    if (a instanceof BigInteger) return new BigDecimal((BigInteger) a);
    if (a instanceof BigDecimal) return a;
    if (a instanceof CharSequence) {
      try {
        return Double.parseDouble(text(a));
      } catch (NumberFormatException e) {
        throw refused();
      }
    }
    if (a instanceof TemporalAccessor) {
      Instant i = instant(a);
      return (double) i.getEpochSecond() + i.getNano() / 1e9;
    }
    if (a instanceof Date) return ((Date) a).getTime() / 1000d;
    if (a instanceof Calendar) return ((Calendar) a).getTimeInMillis() / 1000d;
    if (a instanceof Number) return ((Number) a).doubleValue();
    throw refused();
  }

  static int starInt(Object arg) {
    Object a = unwrap(arg);
    if (a instanceof Boolean) return (Boolean) a ? 1 : 0;
    if (a instanceof Character) return (Character) a;
    if (a instanceof Float) return Math.round((Float) a);
    if (a instanceof Double) return (int) Math.round((Double) a);
    if (a instanceof CharSequence) {
      try {
        return Integer.parseInt(text(a));
      } catch (NumberFormatException e) {
        throw refused();
      }
    }
    if (a instanceof TemporalAccessor) return (int) instant(a).getEpochSecond();
    if (a instanceof Date) return (int) (((Date) a).getTime() / 1000);
    if (a instanceof Calendar) return (int) (((Calendar) a).getTimeInMillis() / 1000);
    if (a instanceof Number) return ((Number) a).intValue();
    throw refused();
  }

  static char charOf(Object arg) {
    Object a = unwrap(arg);
    if (a instanceof CharSequence) {
      String s = text(a);
      if (s.isEmpty()) throw refused();
      return s.charAt(0);
    }
    if (a instanceof TemporalAccessor) throw refused();
    return (char) starInt(a);
  }

  static TemporalAccessor temporal(Object arg) {
    Object a = unwrap(arg);
    if (a instanceof TemporalAccessor) return (TemporalAccessor) a;
    if (a instanceof java.sql.Timestamp) return ((Date) a).toInstant();
    if (a instanceof Date) return Instant.ofEpochMilli(((Date) a).getTime());
    if (a instanceof Calendar) return Instant.ofEpochMilli(((Calendar) a).getTimeInMillis());
    if (a instanceof Integer) return epoch((Integer) a & 0xFFFFFFFFL);
    if (a instanceof Byte
        || a instanceof Short
        || a instanceof Float
        || a instanceof Double
        || a instanceof BigDecimal) {
      throw refused();
    }
    if (a instanceof Number) return epoch(((Number) a).longValue());
    throw refused();
  }

  static String text(Object arg) {
    Object a = unwrap(arg);
    if (a == null) return "null";
    if (a instanceof Modelled) {
      try {
        return ((Modelled) a).modelText();
      } catch (Throwable t) {
        throw new Raised(t);
      }
    }
    if (a instanceof byte[]) return Base64.getEncoder().encodeToString((byte[]) a);
    if (a instanceof char[]) return new String((char[]) a);
    if (a instanceof boolean[]) return Arrays.toString((boolean[]) a);
    if (a instanceof short[]) return Arrays.toString((short[]) a);
    if (a instanceof int[]) return Arrays.toString((int[]) a);
    if (a instanceof long[]) return Arrays.toString((long[]) a);
    if (a instanceof float[]) return Arrays.toString((float[]) a);
    if (a instanceof double[]) return Arrays.toString((double[]) a);
    if (a instanceof Object[]) return Arrays.toString((Object[]) a);
    return String.valueOf(a.toString());
  }
}
