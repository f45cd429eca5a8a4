package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import io.fastprintf.Specifier;
import java.math.BigInteger;
import java.util.EnumSet;

/** Limits of width and precision. */
final class C21 extends Check {

  private static final int TOP = 70000;

  private static final class Kind {
    final String before; // the directive up to the number
    final String after; // and behind it
    final Object arg;
    final boolean width;

    Kind(String before, String after, Object arg, boolean width) {
      this.before = before;
      this.after = after;
      this.arg = arg;
      this.width = width;
    }

    /** What the directive prints for the number n. */
    boolean matches(int n, String s) {
      String conv = after;
      if (width) {
        String body = conv.equals("f") ? "1.500000" : conv.equals("t") ? "2024-02-29" : conv.equals("s") || conv.equals("S") ? "ab".toUpperCase(java.util.Locale.ROOT) : "5";
        if (conv.equals("s")) body = "ab";
        boolean minus = before.contains("-");
        boolean zero = before.contains("0") && (conv.equals("d") || conv.equals("f") || conv.equals("x"));
        int pad = Math.max(0, n - body.length());
        if (s.length() != pad + body.length()) return false;
        if (minus) return s.startsWith(body) && all(s, body.length(), s.length(), ' ');
        return s.endsWith(body) && all(s, 0, pad, zero ? '0' : ' ');
      }
      switch (conv) {
        case "d":
          // %.0d of 5 is still 5
          return s.length() == Math.max(1, n) && s.endsWith("5") && all(s, 0, s.length() - 1, '0');
        case "f":
          return n == 0 ? s.equals("2") : s.length() == n + 2 && s.startsWith("1.5") && all(s, 3, s.length(), '0');
        case "e":
          return n == 0 ? s.equals("2e+00") || s.equals("1e+00") : s.length() == n + 6 && s.startsWith("1.5") && s.endsWith("e+00") && all(s, 3, n + 2, '0');
        default:
          // %.ns of a long text
          return s.length() == Math.min(n, LONG.length()) && LONG.startsWith(s);
      }
    }
  }

  private static boolean all(String s, int a, int b, char c) {
    for (int i = a; i < b; i++) if (s.charAt(i) != c) return false;
    return true;
  }

  private static final String LONG = text();

  private static String text() {
    StringBuilder b = new StringBuilder();
    while (b.length() < TOP) b.append(b.length()).append(',');
    return b.toString();
  }

  private static final Kind[] KINDS = {
    new Kind("%", "d", 5, true),
    new Kind("%-", "s", "ab", true),
    new Kind("%0", "x", 5L, true),
    new Kind("%0", "f", 1.5, true),
    new Kind("%", "S", new StringBuilder("ab"), true),
    new Kind("%", "t", java.time.LocalDate.of(2024, 2, 29), true),
    new Kind("%.", "d", 5, false),
    new Kind("%.", "f", 1.5, false),
    new Kind("%.", "e", 1.5, false),
    new Kind("%.", "s", LONG, false)
  };

  private void honoured(Explorer.Path p, Kind k, int n, boolean star) {
    String fmt = k.before + (star ? "*" : "" + n) + k.after;
    if (!star && n == 0 && k.width) return; // reads as the 0 flag
    Ref.Out got = star ? Impl.run(fmt, n, k.arg) : Impl.run(fmt, k.arg);
    p.trace();
    p.state(fmt + n, got.kind + ":" + got.text.length());
    if (n <= Ref.LIMIT) {
      if (got.kind != Ref.Kind.OK || !k.matches(n, got.text)) {
        p.fail("\"" + fmt + "\" with " + n + " gave " + got);
      }
    } else if (got.kind != (star ? Ref.Kind.REFUSED : Ref.Kind.TOO_BIG)) {
      p.fail("\"" + fmt + "\" with " + n + " was not refused properly: " + got);
    }
    p.sample(() -> fmt + " with " + n + " -> " + got);
  }

  private static int extreme(int i) {
    if (i < 64) {
      long v = (1L << i / 2) + i % 2 - 1;
      return (int) v;
    }
    if (i < 128) return -extreme(i - 64);
    return new int[] {Integer.MIN_VALUE, Integer.MIN_VALUE + 1, Integer.MAX_VALUE, Integer.MAX_VALUE - 1, -65535, -65536, -65537, -65538, 65535, 65536, 65537, 65538, -1, -2, -70000, 131072, -131072}[i - 128];
  }

  private static final int EXTREMES = 128 + 17;

  @Override
  void define() {
    phase(
        "all numbers, written",
        "every number 0.." + TOP + " written as width or precision in " + KINDS.length + " directives",
        p -> {
          int hi = p.choose(TOP / 100 + 1);
          Kind k = KINDS[p.choose(KINDS.length)];
          honoured(p, k, hi * 100 + p.choose(100), false);
        });
    phase(
        "all numbers, supplied",
        "every number 0.." + TOP + " supplied through '*' in " + KINDS.length + " directives",
        p -> {
          int hi = p.choose(TOP / 100 + 1);
          Kind k = KINDS[p.choose(KINDS.length)];
          honoured(p, k, hi * 100 + p.choose(100), true);
        });
    phase(
        "all negative widths, supplied",
        "every width 0..-" + TOP + " supplied through '*' to %d and %s: left-justified",
        p -> {
          int n = p.choose(TOP / 100 + 1) * 100 + p.choose(100);
          boolean str = p.flip();
          Ref.Out got = Impl.run(str ? "%*s" : "%*d", -n, str ? (Object) "ab" : 5);
          p.trace();
          p.state(n, got.kind + ":" + got.text.length());
          if (n > Ref.LIMIT) {
            if (got.kind != Ref.Kind.REFUSED) p.fail("a '*' width of -" + n + " gave " + got);
            return;
          }
          String body = str ? "ab" : "5";
          if (got.kind != Ref.Kind.OK || got.text.length() != Math.max(n, body.length()) || !got.text.startsWith(body) || !all(got.text, body.length(), got.text.length(), ' ')) {
            p.fail("a '*' width of -" + n + " gave " + got);
          }
        });
    phase(
        "context",
        "every number -" + TOP + ".." + TOP + " and " + EXTREMES + " extremes set as width and precision of a FormatContext, by create and by setter",
        p -> {
          int i = p.choose(2 * TOP / 1000 + 2);
          int n = i <= 2 * TOP / 1000 ? i * 1000 - TOP + p.choose(1000) : extreme(p.choose(EXTREMES));
          boolean ok = n >= 0 && n <= Ref.LIMIT || n == FormatContext.UNSET || n == FormatContext.PRECEDING;
          for (int route = 0; route < 5; route++) {
            boolean accepted;
            FormatContext c = null;
            try {
              switch (route) {
                case 0:
                  c = FormatContext.create(EnumSet.noneOf(Flag.class), n, 3, null);
                  break;
                case 1:
                  c = FormatContext.create(EnumSet.of(Flag.PLUS), 3, n, null);
                  break;
                case 2:
                  c = FormatContext.create("", n, n);
                  break;
                case 3:
                  c = FormatContext.create("-").setWidth(n);
                  break;
                default:
                  c = FormatContext.create("-").setPrecision(n);
              }
              accepted = true;
            } catch (PrintfException e) {
              accepted = false;
            }
            if (accepted != ok) p.fail("context route " + route + (accepted ? " accepted " : " refused ") + n);
            if (accepted) {
              boolean w = route == 0 || route == 2 || route == 3;
              boolean q = route == 1 || route == 2 || route == 4;
              if (w && c.getWidth() != n || q && c.getPrecision() != n) p.fail("context route " + route + " holds " + c + " instead of " + n);
              if (w && n >= 0 && c.isWidthSet() != true || q && n >= 0 && !c.isPrecisionSet()) p.fail("context route " + route + " does not know that " + n + " is set");
              try {
                FastPrintf.compile(c.toPatternString(Specifier.valueOf('d')));
              } catch (RuntimeException e) {
                p.fail("the pattern of " + c + " does not compile: " + e);
              }
            }
          }
          p.trace();
          p.state(n, ok);
        });
    phase(
        "extremes",
        EXTREMES + " extreme ints, boxed as int, long, short, text, BigInteger, double, through '*' as width, precision, both; nothing of the directive is printed on refusal",
        p -> {
          int n = extreme(p.choose(EXTREMES));
          Object v;
          switch (p.choose(8)) {
            case 0:
              v = n;
              break;
            case 1:
              v = new Ref.Prim(n);
              break;
            case 2:
              v = (long) n;
              break;
            case 3:
              v = new Ref.Prim((long) n + (1L << 32));
              break;
            case 4:
              v = "" + n;
              break;
            case 5:
              v = BigInteger.valueOf(n);
              break;
            case 6:
              v = (double) n;
              break;
            default:
              v = (short) n;
          }
          String d = p.pick(new String[] {"%*d", "%.*d", "%-*s", "%0*f", "%.*f", "%.*s", "%*.*d", "%*t", "%.*g", "%.*a", "%*%", "%*n", "%.*S", "%*c", "%*p"});
          Object a = d.endsWith("t") ? (Object) java.time.LocalDate.of(2024, 2, 29) : d.matches(".*[fga]") ? (Object) 1.5 : d.matches(".*[sS]") ? (Object) "text" : d.endsWith("p") ? C07.POINTEE : (Object) 77;
          Object[] args = d.contains("*.*") ? new Object[] {v, v, a} : d.endsWith("%") ? new Object[0] : new Object[] {v, a};
          String fmt = "before " + d;
          Impl.check(p, fmt, args);
          // refused before any output of the directive
          Ref.Out want = Ref.format(fmt, args);
          StringBuilder sink = new StringBuilder();
          try {
            FastPrintf.compile(fmt).format(sink, Impl.args(args));
            if (want.kind != Ref.Kind.OK) p.fail(Show.call(fmt, args) + " to a StringBuilder was accepted");
          } catch (PrintfException e) {
            if (!"before ".startsWith(sink.toString())) p.fail(Show.call(fmt, args) + " was refused after printing \"" + Show.text(sink.toString()) + "\"");
          }
        });
    phase(
        "extremes, written",
        "numbers 0..2^31+ and beyond int and long, with leading zeros, as width and precision of every conversion",
        p -> {
          String[] ns = {"0", "00", "0000000000000000000000065536", "65535", "65536", "65537", "000065537", "99999", "100000", "1000000", "2147483646", "2147483647", "2147483648", "4294967296", "4294967301", "9223372036854775807", "9223372036854775808", "18446744073709551621", "99999999999999999999999999"};
          String n = p.pick(ns);
          boolean width = p.flip();
          if (width && n.startsWith("0")) n = "1" + n;
          char c = C20.CONV.charAt(p.choose(C20.CONV.length()));
          if (c == 'a' || c == 'A') c = 'g';
          String fmt = width ? "%" + p.pick(new String[] {"", "-", "0", "+"}) + n + c : "%." + n + c;
          Ref.Program prog = Ref.parse(fmt);
          p.trace();
          p.state(fmt, prog.reject == null);
          try {
            FastPrintf.compile(fmt);
            if (prog.reject != null) p.fail("\"" + fmt + "\" was accepted");
          } catch (PrintfSyntaxException e) {
            if (prog.reject != Ref.Kind.SYNTAX) p.fail("\"" + fmt + "\" is called a syntax error: " + e);
          } catch (PrintfException e) {
            if (prog.reject != Ref.Kind.TOO_BIG) p.fail("\"" + fmt + "\" was refused: " + e);
          } catch (RuntimeException e) {
            p.fail("\"" + fmt + "\" threw " + e);
          }
        });
    phase(
        "large sizes of every conversion",
        "width and precision 65535, 65536 written and supplied x all conversions x - and 0",
        p -> {
          char c = C20.CONV.charAt(p.choose(C20.CONV.length()));
          int n = p.flip() ? 65536 : 65535;
          String fl = p.pick(new String[] {"", "-", "0"});
          boolean star = p.flip();
          boolean width = p.flip();
          Object a = "tT".indexOf(c) >= 0 ? (Object) java.time.LocalDate.of(2024, 2, 29) : "fFeEgGaA".indexOf(c) >= 0 ? (Object) 1.5 : "sS".indexOf(c) >= 0 ? (Object) LONG.substring(0, 66000) : c == 'p' ? C07.POINTEE : (Object) 77;
          String fmt = "%" + fl + (width ? "" : ".") + (star ? "*" : n) + c;
          if (star) Impl.check(p, fmt, n, a);
          else Impl.check(p, fmt, a);
        });
    assumptions.add("-1 and Integer.MIN_VALUE are the documented markers of FormatContext (unset, preceding).");
  }
}
