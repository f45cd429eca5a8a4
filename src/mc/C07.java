package mc;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneOffset;

/** Width law: relation between outputs of the product, no model text involved. */
final class C07 extends Check {

  private static final String CONV = "diuoxXfFeEgGaAcsStTp";
  static final Object POINTEE = mc.sched.Scenario.POINTEE;

  private static final Object[] ARGS = {
    0, 5, -5, 255, Integer.MIN_VALUE, new Ref.Prim(77), (byte) -3, (short) 300, -1L, Long.MAX_VALUE, BigInteger.TEN.pow(25), BigInteger.valueOf(-12),
    0.0, -0.0, 1.5, -123456.789, 1e-7, 1e20, 1.25f, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, new BigDecimal("-0.00001234"),
    new BigDecimal("1500000000000"), new BigDecimal("999999.5"), new BigDecimal("1E-9"), "text", "", "+7", "-0x12", "0", 'c', true, null, new char[] {'a', 'b', 'c'}, new StringBuilder("builder text of 25 chars"),
    LocalDate.of(2024, 2, 29), LocalDateTime.of(2024, 2, 29, 1, 2, 3), OffsetDateTime.of(2024, 2, 29, 1, 2, 3, 0, ZoneOffset.ofHours(-5)), POINTEE
  };

  /** Expected text for width w given the text without width. */
  static String widen(String base, boolean minus, boolean zeros, boolean hexPrefix, int w) {
    int n = w - base.length();
    if (n <= 0) return base;
    if (minus) return base + Ref.repeat(' ', n);
    if (!zeros) return Ref.repeat(' ', n) + base;
    int at = 0;
    if (!base.isEmpty() && "+- ".indexOf(base.charAt(0)) >= 0) at = 1;
    if (hexPrefix && base.startsWith("0x", at) || hexPrefix && base.startsWith("0X", at)) at += 2;
    return base.substring(0, at) + Ref.repeat('0', n) + base.substring(at);
  }

  static boolean finite(String s) {
    return s.indexOf('N') < 0 && s.indexOf('y') < 0 && s.indexOf('Y') < 0;
  }

  private void law(Explorer.Path p, Object v, char c, String flags, int w, int prec) {
    String baseFmt = directive(flags, 0, prec, c);
    Ref.Out base = Impl.run(baseFmt, v);
    String fmt = directive(flags, w, prec, c);
    Ref.Out got = Impl.run(fmt, v);
    p.trace();
    p.state(fmt, got);
    if (base.kind != Ref.Kind.OK) {
      if (got.kind != base.kind) p.fail(Show.call(fmt, v) + " gave " + got + " but without width " + base);
      return;
    }
    boolean integral = "diuoxX".indexOf(c) >= 0;
    boolean floating = "fFeEgGaA".indexOf(c) >= 0;
    boolean zeros = flags.indexOf('0') >= 0 && (integral && prec < 0 || floating && finite(base.text));
    String want = widen(base.text, flags.indexOf('-') >= 0, zeros, "xXaA".indexOf(c) >= 0, w);
    if (got.kind != Ref.Kind.OK || !got.text.equals(want)) {
      p.fail(Show.call(fmt, v) + " gave " + got + ", without width " + base + ", so expected \"" + Show.text(want) + "\"");
    }
    p.sample(() -> Show.call(fmt, v) + " -> " + got + " from " + base);
  }

  /** Whether the flag has a meaning for the directive. */
  private static boolean used(char f, char c, String others, int w, int prec, String base) {
    boolean integral = "diuoxX".indexOf(c) >= 0;
    boolean floating = "fFeEgGaA".indexOf(c) >= 0;
    boolean nan = base.contains("NaN") || base.contains("NAN");
    boolean inf = base.toUpperCase(java.util.Locale.ROOT).contains("INFINITY");
    switch (f) {
      case '-':
        return w > 0;
      case '+':
        return (c == 'd' || c == 'i' || floating) && !(floating && nan);
      case ' ':
        return (c == 'd' || c == 'i' || floating) && others.indexOf('+') < 0 && !(floating && nan);
      case '#':
        return ("oxXfFeEgG".indexOf(c) >= 0) && !(floating && (nan || inf));
      default:
        return w > 0 && others.indexOf('-') < 0 && (integral && prec < 0 || floating && !nan && !inf);
    }
  }

  @Override
  void define() {
    olderToo = true;
    final int[] precs = {-1, 0, 1, 2, 3, 5, 6, 9, 12, 20};
    phase(
        "width law",
        ARGS.length + " arguments x 20 conversions x 32 flag sets x widths 1..45 and large x " + precs.length + " precisions",
        p -> {
          int i = p.choose(ARGS.length * CONV.length());
          char c = CONV.charAt(i % CONV.length());
          Object v = ARGS[i / CONV.length()];
          String flags = p.pick(FLAG_SETS);
          int prec = p.pick(precs);
          int k = p.choose(thorough ? 60 : 36);
          int w = thorough ? k + 1 : k < 26 ? k + 1 : new int[] {28, 30, 31, 32, 33, 40, 48, 64, 65, 300}[k - 26];
          law(p, v, c, flags, w, prec);
        });
    phase(
        "large widths",
        "arguments x conversions x 8 flag sets x 6 large widths",
        p -> {
          int i = p.choose(ARGS.length * CONV.length());
          char c = CONV.charAt(i % CONV.length());
          Object v = ARGS[i / CONV.length()];
          String flags = p.pick(new String[] {"", "-", "0", "#0", "+0", "+-", "#", " 0"});
          law(p, v, c, flags, p.pick(new int[] {512, 1024, 4096, 32768, 65535, 65536}), -1);
        });
    phase(
        "unused flags",
        "removing any flag without meaning for the directive changes nothing: arguments x conversions x 32 flag sets x 9 widths x precisions",
        p -> {
          int i = p.choose(ARGS.length * CONV.length());
          char c = CONV.charAt(i % CONV.length());
          Object v = ARGS[i / CONV.length()];
          String flags = p.pick(FLAG_SETS);
          int prec = p.pick(precs);
          int w = p.pick(new int[] {0, 1, 2, 5, 8, 12, 20, 33, 65});
          String fmt = directive(flags, w, prec, c);
          Ref.Out got = Impl.run(fmt, v);
          p.trace();
          p.state(fmt, got);
          for (int k = 0; k < flags.length(); k++) {
            char f = flags.charAt(k);
            String others = flags.substring(0, k) + flags.substring(k + 1);
            if (used(f, c, others, w, prec, got.text)) continue;
            String fmt2 = directive(others, w, prec, c);
            Ref.Out x = Impl.run(fmt2, v);
            if (!x.equals(got)) {
              p.fail(Show.call(fmt, v) + " gave " + got + " but without the unused flag '" + f + "' " + x);
            }
          }
        });
    phase(
        "flag order",
        "all orders of all flag sets give the same output, 12 arguments x 20 conversions",
        p -> {
          char c = CONV.charAt(p.choose(CONV.length()));
          Object v = p.pick(new Object[] {5, -5, 1.5, -1.5, "t", 'c', new BigDecimal("-2.5"), 0, LocalDate.of(2024, 2, 29), BigInteger.TEN, 300L, null});
          String left = p.pick(FLAG_SETS);
          String sorted = left;
          StringBuilder order = new StringBuilder();
          while (!left.isEmpty()) {
            int k = p.choose(left.length());
            order.append(left.charAt(k));
            left = left.substring(0, k) + left.substring(k + 1);
          }
          String a = "%" + order + "12" + c;
          String b = "%" + sorted + "12" + c;
          Ref.Out x = Impl.run(a, v);
          Ref.Out y = Impl.run(b, v);
          p.trace();
          p.state(a, x);
          if (!x.equals(y)) p.fail(Show.call(a, v) + " gave " + x + " but " + Show.call(b, v) + " gave " + y);
        });
  }
}
