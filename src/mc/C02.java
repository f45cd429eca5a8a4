package mc;

import java.util.Set;
import java.util.TreeSet;

/** %f %e %g of doubles and floats. */
final class C02 extends Check {

  static final char[] CONV = {'f', 'e', 'g', 'F', 'E', 'G'};

  /** Doubles at which layout decisions change. */
  static Double[] critical() {
    Set<Double> s = new TreeSet<>();
    for (int k = -8; k <= 22; k++) {
      double ten = Double.parseDouble("1e" + k);
      Values.around(s, ten, 3);
      for (int d = 2; d <= 9; d++) s.add(Double.parseDouble(d + "e" + k));
      // carries: 9.5, 9.95, 99.99995 ... and halves
      StringBuilder nines = new StringBuilder("9");
      for (int n = 0; n < 16; n++) {
        s.add(Double.parseDouble(nines + "5e" + (k - n)));
        s.add(Double.parseDouble(nines + "e" + (k - n)));
        s.add(Double.parseDouble(nines + "49e" + (k - n)));
        nines.append('9');
      }
      for (int d = 0; d <= 9; d++) {
        s.add(Double.parseDouble("1." + d + "5e" + k));
        s.add(Double.parseDouble("2.3" + d + "5e" + k));
        s.add(Double.parseDouble("4.56" + d + "5e" + k));
      }
    }
    for (int i = 0; i <= 64; i++) {
      s.add((double) i);
      s.add(i + 0.5);
      s.add(i / 64.0);
    }
    s.add(123456.789);
    s.add(Math.PI);
    s.add(Math.E);
    s.add(1 / 3.0);
    s.add(Double.MAX_VALUE);
    s.add(Double.MIN_VALUE);
    s.add(Double.MIN_NORMAL);
    s.add((double) Long.MAX_VALUE);
    s.add(9007199254740993.0);
    s.add(1.7976931348623155e308);
    s.add(2.2250738585072011e-308);
    s.add(1e100);
    s.add(1.5e-100);
    s.add(1e99);
    s.add(9.999999e99);
    s.add(1e-99);
    s.add(9.9999995e-100);
    return Values.doubles(s);
  }

  @Override
  void define() {
    final Double[] crit = critical();
    final int[] precs = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 30, 40, 64, 100, 310};
    phase(
        "critical values",
        crit.length + " doubles at carries, halves, powers of ten and thresholds, both signs x "
            + precs.length + " precisions x 6 conversions x {none,#}",
        p -> {
          double v = p.pick(crit);
          int q = p.pick(precs);
          char c = CONV[p.choose(6)];
          String fl = p.flip() ? "#" : "";
          Impl.check(p, directive(fl, 0, q, c), p.flip() ? -v : v);
        });
    final int digits = thorough ? 100000 : 10000;
    phase(
        "short decimals",
        "all m*10^k, 1 <= m < " + digits + ", -14 <= k <= 18 x precision 0..9 x f,e,g",
        p -> {
          int m = p.choose(digits - 1) + 1;
          int k = p.choose(33) - 14;
          double v = Double.parseDouble(m + "e" + k);
          int q = p.choose(thorough ? 10 : 8);
          char c = CONV[p.choose(3)];
          Impl.check(p, directive("", 0, q, c), v);
        });
    phase(
        "digit chunks",
        "all groups of 3 digits at all places of a decimal of 16 digits, in three surroundings, with 8 exponents x %.15e %.16f %.9g %.4e",
        p -> {
          int group = p.choose(1000);
          int at = p.choose(14);
          char fill = p.pick(new Character[] {'0', '1', '8'});
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < at; i++) b.append(fill);
          b.append(String.format("%03d", group));
          while (b.length() < 16) b.append(fill);
          double v = Double.parseDouble(b + "e" + p.pick(new int[] {-40, -20, -16, -15, -8, -1, 0, 6}));
          Impl.check(p, p.pick(new String[] {"%.15e", "%.16f", "%.9g", "%.4e"}), v);
        });
    final Double[] few = {
      0.0, -0.0, 1.0, -1.0, 0.5, 9.5, 9.96, 99.995, 999999.5, 0.0001, 0.00009999995, 123456.789, 1e6, 1e15, 1.5e300, -2.5e-300,
      5e-324, Double.MAX_VALUE, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, 0.1, 1e21, 314159.26535, -100.0
    };
    final int[] widths = {0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 33, 80};
    final int[] lp = {-1, 0, 1, 2, 3, 5, 6, 7, 10, 15, 17, 20, 33};
    phase(
        "layouts",
        "32 flag sets x " + widths.length + " widths x " + lp.length + " precisions x 6 conversions x " + few.length + " values (double, primitive)",
        p -> {
          double v = p.pick(few);
          String fl = p.pick(FLAG_SETS);
          int w = p.pick(widths);
          int q = p.pick(lp);
          char c = CONV[p.choose(6)];
          Impl.check(p, directive(fl, w, q, c), p.flip() ? (Object) v : new Ref.Prim(v));
        });
    phase(
        "floats",
        "all float exponents x 40 mantissas x sign x precision x f,e,g",
        p -> {
          int e = p.choose(256);
          int m = p.choose(40);
          int mant = m < 24 ? (1 << m) - 1 : m * 209715 & 0x7FFFFF;
          float v = Float.intBitsToFloat((p.flip() ? 1 << 31 : 0) | e << 23 | mant & 0x7FFFFF);
          int q = p.pick(new int[] {-1, 0, 1, 2, 6, 9, 17});
          char c = CONV[p.choose(3)];
          Impl.check(p, directive("", 0, q, c), p.flip() ? (Object) v : new Ref.Prim(v));
        });
    final long[] mant = Values.mantissas(thorough);
    phase(
        "binades",
        "all 2047 binary exponents x " + mant.length + " mantissas x {%.3e,%g,%.17g}",
        p -> {
          int e = p.choose(2047);
          long m = mant[p.choose(mant.length)];
          double v = Double.longBitsToDouble((long) e << 52 | m);
          Impl.check(p, p.pick(new String[] {"%.3e", "%g", "%.17g"}), v);
        });
    phase(
        "every precision",
        "all precisions 0..400 x f,e,g x {none,#} x 12 values",
        p -> {
          int q = p.choose(401);
          char c = CONV[p.choose(3)];
          String fl = p.flip() ? "#" : "";
          double v = p.pick(new Double[] {0.0, 1.0, 0.1, 123.456, 1e22, 1e23, 5e-324, Double.MAX_VALUE, 1.5e-7, 999.5, 1e-4, 2.5e16});
          Impl.check(p, directive(fl, 0, q, c), v);
        });
    final int[] bigs = {500, 1000, 1023, 1024, 4096, 10000, 32768, 65535, 65536};
    phase(
        "large sizes",
        bigs.length + " large widths/precisions x 8 flag sets x 6 conversions x 6 values",
        p -> {
          int n = p.pick(bigs);
          boolean prec = p.flip();
          String fl = p.pick(new String[] {"", "-", "0", "#", "+0", "#0", "#-", " "});
          char c = CONV[p.choose(6)];
          double v = p.pick(new Double[] {0.0, 1.25, -1e300, 1e-300, Double.NaN, Double.NEGATIVE_INFINITY});
          Impl.check(p, prec ? directive(fl, 0, n, c) : directive(fl, n, -1, c), v);
        });
    assumptions.add("Rounding is half-up on the shortest decimal, as the product documents (JDK 21 engine), not half-even on the binary value.");
    assumptions.add("%#g in scientific style does not add a bare point: pinned by the product's tests.");
  }

  /** The model's layout against the C library, on values both print exactly. */
  @Override
  void after(Explorer x) throws Exception {
    Glibc g = new Glibc();
    double[] exact = {0.0, -0.0, 1, -1, 0.5, -0.25, 2.75, 100, 1024, -65536.5, 1e6, 1e10, 123456.0, 0.0625, 7, 9};
    for (String fl : FLAG_SETS) {
      for (int w : new int[] {0, 1, 5, 9, 14, 25}) {
        for (int q : new int[] {-1, 0, 1, 2, 4, 6, 7, 12, 20}) {
          for (char c : CONV) {
            String d = directive(fl, w, q, c);
            for (double v : exact) {
              if (!unrounded(v, q < 0 ? 6 : q, Character.toLowerCase(c))) continue;
              if (fl.indexOf('#') >= 0 && Character.toLowerCase(c) == 'g') continue; // the product's own rule
              g.add('d', d, Double.toString(v), d, v);
            }
          }
        }
      }
    }
    g.run(x);
  }

  /** Whether printing with the precision loses nothing. */
  private static boolean unrounded(double v, int q, char c) {
    java.math.BigDecimal b = new java.math.BigDecimal(v).stripTrailingZeros();
    if (v == 0) return true;
    if (c == 'f') return b.scale() <= q;
    return b.precision() <= (c == 'e' ? q + 1 : Math.max(q, 1));
  }
}
