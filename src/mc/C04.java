package mc;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.LinkedHashSet;
import java.util.Set;

/** %f %e %g of BigDecimal and BigInteger. */
final class C04 extends Check {

  static BigInteger[] unscaled() {
    Set<BigInteger> s = new LinkedHashSet<>();
    for (int i = 0; i <= 130; i++) s.add(BigInteger.valueOf(i));
    String[] tails = {"", "0", "00", "1", "4", "49", "5", "50", "500001", "51", "6", "9", "94", "95", "949", "99"};
    String[] heads = {"1", "5", "9", "12", "99", "100", "123", "999", "1000", "9999", "12345", "99999", "123456", "999999",
      "1000000", "1234567", "9999999", "12345678", "99999999", "123456789", "999999999", "1000000000", "1234567890", "9999999999",
      "10000000000", "12345678901", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616",
      "99999999999999999999", "123456789012345678901234567890", "999999999999999999999999999999999999999999",
      "1000000000000000000000000000000000000000000000000000000000000000000001"};
    for (String h : heads) for (String t : tails) s.add(new BigInteger(h + t));
    return s.toArray(new BigInteger[0]);
  }

  @Override
  void define() {
    final BigInteger[] un = unscaled();
    phase(
        "values",
        un.length + " digit strings x scale -12..45 x 15 precisions x f,e,g x {none,#}, both signs",
        p -> {
          BigInteger u = p.pick(un);
          int scale = p.choose(58) - 12;
          int q = p.pick(new int[] {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20, 40});
          char c = C02.CONV[p.choose(3)];
          String fl = p.flip() ? "#" : "";
          boolean neg = (u.intValue() + scale + q & 1) != 0;
          Impl.check(p, directive(fl, 0, q, c), new BigDecimal(neg ? u.negate() : u, scale));
        });
    final int digits = thorough ? 20000 : 2000;
    phase(
        "short decimals",
        "all m*10^-s, 0 <= m < " + digits + ", -12 <= s <= 12 x precision 0..8 x f,e,g",
        p -> {
          int m = p.choose(digits);
          int s = p.choose(25) - 12;
          int q = p.choose(9);
          char c = C02.CONV[p.choose(3)];
          Impl.check(p, directive("", 0, q, c), BigDecimal.valueOf(m, s));
        });
    final Object[] few = {
      BigDecimal.ZERO, new BigDecimal("0.00"), new BigDecimal("0E+5"), new BigDecimal("0E-50"), BigDecimal.ONE, new BigDecimal("-1.50"),
      new BigDecimal("999999.5"), new BigDecimal("0.0000999995"), new BigDecimal("0.0001"), new BigDecimal("-123456.789"),
      new BigDecimal("1E+30"), new BigDecimal("1.5E-30"), new BigDecimal("12345678901234567890.12345678901234567890"),
      new BigDecimal("1E+6"), new BigDecimal("1500000000000"), BigInteger.ZERO, BigInteger.TEN.pow(20), BigInteger.valueOf(-1234567890), BigInteger.valueOf(7)
    };
    final int[] widths = {0, 1, 2, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, 33, 80};
    final int[] precs = {-1, 0, 1, 2, 3, 5, 6, 7, 10, 15, 20, 33};
    phase(
        "layouts",
        "32 flag sets x " + widths.length + " widths x " + precs.length + " precisions x 6 conversions x " + few.length + " values",
        p -> {
          Object v = p.pick(few);
          String fl = p.pick(FLAG_SETS);
          int w = p.pick(widths);
          int q = p.pick(precs);
          char c = C02.CONV[p.choose(6)];
          Impl.check(p, directive(fl, w, q, c), v);
        });
    phase(
        "big integers",
        "BigIntegers ±2^k, ±10^k, d*10^k with neighbours up to 220 bits x f,e,g x 8 precisions",
        p -> {
          BigInteger v = p.pick(BIGS);
          int q = p.pick(new int[] {-1, 0, 1, 5, 9, 10, 17, 30});
          char c = C02.CONV[p.choose(3)];
          Impl.check(p, directive("", 0, q, c), v);
        });
    phase(
        "representations",
        "each digit string with 1, 2, 5, 12 trailing zeros moved into the scale prints alike, all precisions 0..12",
        p -> {
          BigInteger u = p.pick(un);
          int scale = p.choose(20) - 6;
          int z = p.pick(new int[] {1, 2, 5, 12});
          String fmt = directive(p.flip() ? "#" : "", 0, p.choose(13), C02.CONV[p.choose(3)]);
          BigDecimal a = new BigDecimal(u, scale);
          BigDecimal b = new BigDecimal(u.multiply(BigInteger.TEN.pow(z)), scale + z);
          Ref.Out x = Impl.run(fmt, a);
          Ref.Out y = Impl.run(fmt, b);
          p.trace();
          p.state(fmt, x);
          if (!x.equals(y)) p.fail(Show.call(fmt, a) + " gave " + x + " but " + Show.call(fmt, b) + " gave " + y);
        });
    phase(
        "wide scales",
        "scales ±{50,99,100,101,308,400,1000,3000} x digits x precisions x f,e,g",
        p -> {
          int s = p.pick(new int[] {50, 99, 100, 101, 308, 400, 1000, 3000, -50, -99, -100, -101, -308, -400, -1000, -3000});
          String u = p.pick(new String[] {"1", "15", "999999", "9999995", "123456789012", "-25", "0"});
          int q = p.pick(new int[] {-1, 0, 1, 6, 99, 100, 400, 3000});
          char c = p.pick(new Character[] {'f', 'e', 'g', 'E', 'G'});
          Impl.check(p, directive(p.flip() ? "#" : "", 0, q, c), new BigDecimal(new BigInteger(u), s));
        });
    phase(
        "tiny numbers",
        "scales 2^k and 2^k±1 (12 <= k < 31) and Integer.MAX_VALUE x digits x precisions x f,e,g,F,E,G, d,x and a star",
        p -> {
          int k = p.choose(19);
          int s = (1 << 12 + k) + p.choose(3) - 1;
          if (k == 18 && p.flip()) s = Integer.MAX_VALUE;
          String u = p.pick(new String[] {"1", "15", "999999", "9999995", "123456789012345678901234567890", "-25", "-500000", "0", "5", "-1"});
          int q = p.pick(new int[] {-1, 0, 1, 2, 6, 7, 99, 3000});
          BigDecimal v = new BigDecimal(new BigInteger(u), s);
          int c = p.choose(9);
          if (c < 8) Impl.check(p, directive(p.flip() ? "#" : "", p.pick(new int[] {0, 12}), q, "feEgGFdx".charAt(c)), v);
          else Impl.check(p, "%*d|%.*d|%c", v, 7, v, 0, v);
        });
    phase(
        "around half of the last digit",
        "digit strings of 1..40 digits at all scales from 6 digits above to 6 digits below the last one printed x precisions 0..12 and 40 x f,g",
        p -> {
          int n = p.choose(40) + 1;
          BigInteger u = new BigInteger(pattern(p.choose(7), n));
          int q = p.pick(new int[] {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40});
          int s = q + n + p.choose(13) - 6;
          if (p.flip()) u = u.negate();
          Impl.check(p, directive(p.flip() ? "#" : "", 0, q, p.flip() ? 'f' : 'g'), new BigDecimal(u, s));
        });
    phase(
        "many digits",
        "digit strings of all lengths 1..130 and 150, 200, 308, 309, 400, 767, 768, 1074, 1100 in 7 patterns x 7 positions of the point x 10 precisions around it x f,e,g x both signs",
        p -> {
          int n = p.choose(139) + 1;
          if (n > 130) n = new int[] {150, 200, 308, 309, 400, 767, 768, 1074, 1100}[n - 131];
          BigInteger u = new BigInteger(pattern(p.choose(7), n));
          int scale = p.pick(new int[] {0, 1, n / 2, n - 1, n, n + 3, -2});
          int b = p.pick(new int[] {0, 1, 6, 17, scale, scale - 1, scale + 1, n - 2, n - 1, n});
          char c = C02.CONV[p.choose(3)];
          if (p.flip()) u = u.negate();
          Impl.check(p, directive((n & 1) == 0 ? "#" : "", 0, Math.max(0, b), c), new BigDecimal(u, scale));
        });
    phase(
        "digit chunks",
        "all groups of 3 digits at all places of 30 digits, in three surroundings x 4 scales x 5 directives",
        p -> {
          int group = p.choose(1000);
          int at = p.choose(28);
          char fill = p.pick(new Character[] {'0', '1', '9'});
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < at; i++) b.append(fill);
          b.append(String.format("%03d", group));
          while (b.length() < 30) b.append(fill);
          BigDecimal v = new BigDecimal(new BigInteger(b.toString()), p.pick(new int[] {0, 7, 29, -3}));
          Impl.check(p, p.pick(new String[] {"%f", "%.3f", "%.29e", "%.12g", "%.0e"}), v);
        });
    phase(
        "hex refused",
        "%a and %A of every value above",
        p -> {
          Object v = p.flip() ? p.pick(few) : new BigDecimal(p.pick(un), 3);
          Impl.check(p, directive(p.pick(FLAG_SETS), 0, p.pick(new int[] {-1, 0, 3}), p.flip() ? 'a' : 'A'), v);
        });
    assumptions.add("Negative scales beyond a few thousand are out of the bound (they print as many zeros).");
  }

  private static String pattern(int kind, int n) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < n; i++) {
      switch (kind) {
        case 0:
          b.append('9');
          break;
        case 1:
          b.append(i == 0 ? '1' : '0');
          break;
        case 2:
          b.append(i == 0 || i == n - 1 ? '1' : '0');
          break;
        case 3:
          b.append("142857".charAt(i % 6));
          break;
        case 4:
          b.append(i == n - 1 ? '5' : '9');
          break;
        case 5:
          b.append(i == 0 ? '2' : i == n / 2 ? '5' : '0');
          break;
        default:
          b.append(i < n / 2 ? '4' : '9');
      }
    }
    return b.toString();
  }

  private static final BigInteger[] BIGS = Values.integers(220, 1, true).toArray(new BigInteger[0]);
}
