package mc;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;

/** Digits of doubles are the shortest identifying decimal. */
final class C03 extends Check {

  private static void check(Explorer.Path p, double v, int prec) {
    check(p, v, prec, 'e');
  }

  private static void check(Explorer.Path p, double v, int prec, char conv) {
    String fmt = "%." + prec + conv;
    Ref.Out got = Impl.run(fmt, v);
    p.trace();
    p.state(Double.doubleToRawLongBits(v) * 1021 + prec * 3 + conv);
    String text = got.kind == Ref.Kind.OK ? got.text : "";
    if (text.isEmpty()) p.fail(Show.call(fmt, v) + " gave " + got);
    BigDecimal want = Shortest.decimal(Math.abs(v));
    BigDecimal is;
    try {
      is = new BigDecimal(text);
    } catch (NumberFormatException e) {
      p.fail(Show.call(fmt, v) + " is not a number: " + got);
      return;
    }
    if (v < 0) want = want.negate();
    if (is.compareTo(want) != 0) {
      p.fail(Show.call(fmt, v) + " gave " + got + ", the shortest decimal is " + want);
    }
    if (Double.parseDouble(text) != v) p.fail(Show.call(fmt, v) + " gave " + got + " which reads back differently");
    p.sample(() -> Show.call(fmt, v) + " -> " + got);
  }

  @Override
  void define() {
    final long[] mant = Values.mantissas(true);
    phase(
        "binades",
        "all 2047 binary exponents x " + mant.length + " mantissa patterns",
        p -> {
          int e = p.choose(2047);
          long m = mant[p.choose(mant.length)];
          check(p, Double.longBitsToDouble((long) e << 52 | m), 17);
        });
    phase(
        "binade boundaries",
        "all 2047 binary exponents x the 32 values on either side of each power of two",
        p -> {
          int e = p.choose(2047);
          int d = p.choose(65) - 32;
          long bits = ((long) e << 52) + d;
          if (bits < 0) bits = -bits;
          double v = Double.longBitsToDouble(bits);
          if (Double.isInfinite(v) || Double.isNaN(v)) return;
          check(p, p.flip() ? -v : v, 17);
        });
    phase(
        "small subnormals",
        "all subnormals up to 2^17 units and 2^k multiples",
        p -> {
          int hi = p.choose(256);
          int lo = p.choose(512);
          check(p, Double.longBitsToDouble((long) hi * 512 + lo), 17);
        });
    phase(
        "powers of ten",
        "all m*10^k, 1 <= m <= " + (thorough ? 2000 : 300) + ", -326 <= k <= 308 with 2 neighbours on each side",
        p -> {
          int k = p.choose(635) - 326;
          int m = p.choose(thorough ? 2000 : 300) + 1;
          double v = Double.parseDouble(m + "e" + k);
          if (Double.isInfinite(v) || v == 0) return;
          long bits = Double.doubleToRawLongBits(v) + (p.choose(5) - 2);
          double w = Double.longBitsToDouble(bits);
          if (bits < 0 || Double.isInfinite(w)) return;
          check(p, w, 17);
        });
    final int near = thorough ? 46 : 49;
    phase(
        "decision boundaries",
        "all doubles of all 2047 binary exponents that lie within 2^-" + near + " of a boundary of the digit choice: either end of the rounding interval at a multiple of 10^k or 10^(k+1), the value at a multiple or half multiple of 10^k (enumerated by exact congruences)",
        p -> {
          int be = p.choose(2047);
          int kind = p.choose(Near.KINDS);
          boolean above = p.flip();
          for (double v : Near.cases(be, kind, above, near)) check(p, v, 17);
        });
    phase(
        "integers",
        "all integers 2^k + d, |d| <= 40, k = 0..63, and 0..65535",
        p -> {
          int k = p.choose(65);
          int d = p.choose(k == 64 ? 65536 : 81);
          double v = k == 64 ? d : Math.pow(2, k) + (d - 40);
          if (v == 0) return;
          check(p, v, 17);
        });
    phase(
        "precision beyond the digits",
        "precisions from 18 on (from 342 on for f) to 4096 x 2047 exponents x 4 mantissas x e, f, g and uppercase",
        p -> {
          int e = p.choose(2047);
          long m = p.pick(new Long[] {0L, 1L, 0x8000000000001L, 0xFFFFFFFFFFFFFL});
          char c = "eEgGfF".charAt(p.choose(6));
          int q = p.pick(c == 'f' || c == 'F' ? new int[] {342, 343, 400, 767, 1100, 4096} : new int[] {18, 19, 20, 21, 32, 64, 70, 341, 800, 1100});
          check(p, Double.longBitsToDouble((long) e << 52 | m), q, c);
        });
    phase(
        "every precision",
        "all precisions 17..1500 and around 4096, 32768, 65536 x e, f, g x 14 values",
        p -> {
          int i = p.choose(1484 + 9);
          int q = i < 1484 ? 17 + i : new int[] {4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536}[i - 1484];
          char c = "efg".charAt(p.choose(3));
          double v = p.pick(new Double[] {1.0, 0.1, -123.456, 1e22, 1e23, 5e-324, 2e-308, Double.MAX_VALUE, 1.5e-7, -999.5, 1e-4, 2.5e16, 4.35, 0.3});
          BigDecimal d = Shortest.decimal(Math.abs(v));
          if (c == 'f' && d.scale() > q) return;
          check(p, v, q, c);
        });
    if (thorough) {
      phase(
          "dense mantissas",
          "all 2047 exponents x 16384 equidistant mantissas",
          p -> {
            int e = p.choose(2047);
            int i = p.choose(16384);
            check(p, Double.longBitsToDouble((long) e << 52 | (i * 274877906951L & 0xFFFFFFFFFFFFFL)), 17);
          });
    }
    assumptions.add("Decimal rule of Double.toString since JDK 19 (at least two digits counted), which the product documents as its engine.");
  }

  /** Doubles near decision boundaries of the decimal conversion. */
  static final class Near {
    private Near() {}

    static final int KINDS = 6;

    /**
     * The doubles c*2^q of a binary exponent for which x = (2c+d)*2^(q-1)/u is less than 2^-bits
     * above (or below) an integer (or a half-integer), u being the power of ten of the last digit
     * or ten times that: complete for the exponent.
     */
    static List<Double> cases(int be, int kind, boolean above, int bits) {
      int q = be == 0 ? -1074 : be - 1075;
      // 10^k <= 2^q < 10^(k+1)
      int k = (int) Math.floor(q * 0.30102999566398120);
      int d = kind < 4 ? (kind % 2 == 0 ? -1 : 1) : 0;
      int u = kind < 2 ? k + 1 : k;
      boolean half = kind == 5;
      // (2c+d) * num / den, with den so scaled that half units are whole
      BigInteger num = BigInteger.ONE;
      BigInteger den = BigInteger.ONE;
      int qq = q - 1;
      if (qq >= 0) num = num.shiftLeft(qq);
      else den = den.shiftLeft(-qq);
      if (u >= 0) den = den.multiply(BigInteger.TEN.pow(u));
      else num = num.multiply(BigInteger.TEN.pow(-u));
      num = num.shiftLeft(1);
      den = den.shiftLeft(1);
      // residues of  c*2num + d*num (- den/2 for half-integers)  in [0, w] or [-w, 0]
      BigInteger a = num.shiftLeft(1).mod(den);
      BigInteger b = num.multiply(BigInteger.valueOf(d));
      if (half) b = b.subtract(den.shiftRight(1));
      List<Double> out = new ArrayList<>();
      // exactly at a boundary: the first ones; off it: all inside the window, which is narrowed
      // or widened where the fractions of an exponent are so regular that too many or none lie in it
      add(out, be, a, b, den, BigInteger.ZERO, 64);
      BigInteger one = above ? BigInteger.ONE.negate() : BigInteger.ONE;
      boolean narrowing = false;
      for (int n = bits; n > 0; ) {
        BigInteger w = den.shiftRight(n).subtract(BigInteger.ONE);
        if (w.signum() < 0) break;
        List<Double> some = new ArrayList<>();
        BigInteger bb = b.add(one);
        if (!add(some, be, a, above ? bb : bb.add(w), den, w, 1 << 58 - bits)) {
          narrowing = true;
          n++;
        } else if (some.isEmpty() && !narrowing) {
          n--;
        } else {
          out.addAll(some);
          break;
        }
      }
      return out;
    }

    /** Adds the doubles with a*c+b mod m in [0, w]; false if there are more than the limit. */
    private static boolean add(List<Double> out, int be, BigInteger a, BigInteger b, BigInteger m, BigInteger w, int limit) {
      long c = be == 0 ? 1 : 1L << 52;
      long to = be == 0 ? 1L << 52 : 1L << 53;
      for (int n = 0; c < to; n++, c++) {
        BigInteger l = a.multiply(BigInteger.valueOf(c)).add(b).negate().mod(m);
        BigInteger r = l.add(w);
        // the wanted residues of a*x start at l; past the modulus they include 0
        BigInteger x = l.signum() == 0 || r.compareTo(m) >= 0 ? BigInteger.ZERO : first(a, m, l, r);
        if (x == null || x.bitLength() > 60) break;
        c += x.longValueExact();
        if (c >= to) break;
        if (n == limit) return false;
        out.add(be == 0 ? Double.longBitsToDouble(c) : Double.longBitsToDouble((long) be << 52 | c & 0xFFFFFFFFFFFFFL));
      }
      return true;
    }

    /** The least x >= 0 with l <= a*x mod m <= r, null if there is none. */
    private static BigInteger first(BigInteger a, BigInteger m, BigInteger l, BigInteger r) {
      if (l.signum() == 0) return BigInteger.ZERO;
      if (a.signum() == 0) return null;
      if (a.shiftLeft(1).compareTo(m) > 0) {
        BigInteger t = m.subtract(r);
        r = m.subtract(l);
        l = t;
        a = m.subtract(a);
      }
      BigInteger x = ceil(l, a);
      if (x.multiply(a).compareTo(r) <= 0) return x;
      BigInteger y = first(m.mod(a), a, r.negate().mod(a), l.negate().mod(a));
      return y == null ? null : ceil(l.add(m.multiply(y)), a);
    }

    private static BigInteger ceil(BigInteger n, BigInteger d) {
      BigInteger[] qr = n.divideAndRemainder(d);
      return qr[1].signum() == 0 ? qr[0] : qr[0].add(BigInteger.ONE);
    }
  }
}
