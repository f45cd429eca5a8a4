package mc;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Set;
import java.util.TreeSet;

/** Structured, complete families of values. */
final class Values {
  private Values() {}

  /** ±2^k, ±10^k, ±d*10^k and repdigits with neighbours, within the given number of bits. */
  static List<BigInteger> integers(int bits, int delta, boolean digits) {
    TreeSet<BigInteger> s = new TreeSet<>();
    List<BigInteger> base = new ArrayList<>();
    base.add(BigInteger.ZERO);
    for (int k = 0; k <= bits; k++) base.add(BigInteger.ONE.shiftLeft(k));
    BigInteger p = BigInteger.ONE;
    for (int k = 0; p.bitLength() <= bits; k++) {
      base.add(p);
      if (digits) {
        for (int d = 2; d <= 9; d++) base.add(p.multiply(BigInteger.valueOf(d)));
        BigInteger rep = p.subtract(BigInteger.ONE).divide(BigInteger.valueOf(9));
        for (int d = 1; d <= 9; d++) base.add(rep.multiply(BigInteger.valueOf(d)));
      }
      p = p.multiply(BigInteger.TEN);
    }
    base.add(new BigInteger("1234567890123456789"));
    base.add(new BigInteger("987654321"));
    base.add(new BigInteger("123456789abcdef", 16));
    base.add(new BigInteger("fedcba98", 16));
    base.add(new BigInteger("5555555555555555", 16));
    base.add(new BigInteger("2aaaaaaaaaaaaaaa", 16));
    BigInteger lo = BigInteger.ONE.shiftLeft(bits - 1).negate();
    BigInteger hi = BigInteger.ONE.shiftLeft(bits - 1).subtract(BigInteger.ONE);
    for (BigInteger b : base) {
      for (int d = -delta; d <= delta; d++) {
        for (int sg = -1; sg <= 1; sg += 2) {
          BigInteger v = b.add(BigInteger.valueOf(d)).multiply(BigInteger.valueOf(sg));
          if (v.compareTo(lo) >= 0 && v.compareTo(hi) <= 0) s.add(v);
          // the same bit pattern read as a signed number
          if (b.bitLength() <= bits) {
            BigInteger w = v.signum() > 0 && v.compareTo(hi) > 0 ? v.subtract(BigInteger.ONE.shiftLeft(bits)) : v;
            if (w.compareTo(lo) >= 0 && w.compareTo(hi) <= 0) s.add(w);
          }
        }
      }
    }
    return new ArrayList<>(s);
  }

  static Double[] doubles(Set<Double> s) {
    return s.toArray(new Double[0]);
  }

  static void around(Set<Double> s, double v, int ulps) {
    double a = v;
    double b = v;
    s.add(v);
    for (int i = 0; i < ulps; i++) {
      a = Math.nextUp(a);
      b = Math.nextDown(b);
      if (!Double.isInfinite(a)) s.add(a);
      if (!Double.isInfinite(b)) s.add(b);
    }
  }

  /** Mantissa patterns (52 bits): runs of ones and zeros, single bits, alternations. */
  static long[] mantissas(boolean many) {
    Set<Long> s = new LinkedHashSet<>();
    long all = (1L << 52) - 1;
    for (int k = 0; k <= 52; k++) {
      long b = k == 52 ? 0 : 1L << k;
      s.add(b);
      s.add((b - 1) & all);
      s.add((b + 1) & all);
      s.add(~b & all);
      s.add((~b + 1) & all);
      if (many) {
        for (int j = 0; j < k; j++) {
          s.add((b | 1L << j) & all);
          s.add((b - (1L << j)) & all);
        }
      }
    }
    s.add(0x5555555555555L);
    s.add(0xAAAAAAAAAAAAAL);
    s.add(0x3333333333333L);
    s.add(0x123456789ABCDL);
    s.add(0xFEDCBA9876543L);
    for (int i = 0; i < (many ? 512 : 64); i++) {
      s.add((i * 0x3F1A9C5D7E2BL + 0x1234567L) & all);
    }
    long[] out = new long[s.size()];
    int i = 0;
    for (long v : s) out[i++] = v;
    return out;
  }
}
