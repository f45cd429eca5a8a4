package mc;

import java.math.BigDecimal;
import java.math.BigInteger;

/**
 * The decimal of a double as specified by Double.toString (since JDK 19): among the decimals that
 * round to the double, those of minimal length (at least 2), the closest one, ties to the even
 * digit. Exact integer arithmetic, no floating point.
 */
final class Shortest {
  private Shortest() {}

  private static final BigInteger[] POW10 = new BigInteger[700];

  static {
    POW10[0] = BigInteger.ONE;
    for (int i = 1; i < POW10.length; i++) POW10[i] = POW10[i - 1].multiply(BigInteger.TEN);
  }

  static BigDecimal decimal(double abs) {
    if (abs == 0) return BigDecimal.ZERO;
    long bits = Double.doubleToRawLongBits(abs);
    int be = (int) (bits >>> 52);
    long f = bits & 0xFFFFFFFFFFFFFL;
    long m = be == 0 ? f : f | 1L << 52;
    int q = be == 0 ? -1074 : be - 1075;
    boolean irregular = f == 0 && be > 1;
    boolean inclusive = (m & 1) == 0;
    // In units of 2^(q-2): value 4m, bounds 4m-2 (4m-1 if irregular) and 4m+2.
    BigInteger v = BigInteger.valueOf(m).shiftLeft(2);
    BigInteger lo = v.subtract(BigInteger.valueOf(irregular ? 1 : 2));
    BigInteger hi = v.add(BigInteger.valueOf(2));
    int q2 = q - 2;
    // Decimal exponent such that value / 10^k has 17 or 18 digits.
    int mag = (int) Math.floor((63 - Long.numberOfLeadingZeros(m) + q) * 0.30102999566398120);
    int k = mag - 17;
    BigInteger num = BigInteger.ONE;
    BigInteger den = BigInteger.ONE;
    if (q2 >= 0) num = num.shiftLeft(q2);
    else den = den.shiftLeft(-q2);
    if (k >= 0) den = den.multiply(POW10[k]);
    else num = num.multiply(POW10[-k]);
    BigInteger[] V = v.multiply(num).divideAndRemainder(den);
    BigInteger[] L = lo.multiply(num).divideAndRemainder(den);
    BigInteger[] H = hi.multiply(num).divideAndRemainder(den);
    long vf = V[0].longValueExact();
    long lf = L[0].longValueExact();
    long hf = H[0].longValueExact();
    boolean vExact = V[1].signum() == 0;
    boolean lExact = L[1].signum() == 0;
    boolean hExact = H[1].signum() == 0;
    // Largest step 10^j with a multiple inside the rounding interval.
    long step = 1000000000000000000L;
    while (true) {
      if (inside(vf, step, lf, hf, lExact, hExact, inclusive) != 0) break;
      if (step == 1) throw new AssertionError("no decimal for " + abs);
      step /= 10;
    }
    // A one-digit decimal is replaced by the closest two-digit one.
    while (step > 1 && digits(vf, step) < 2) step /= 10;
    int in = inside(vf, step, lf, hf, lExact, hExact, inclusive);
    long a = vf - vf % step;
    long b = a + step;
    long pick;
    if (in == 1) {
      pick = a;
    } else if (in == 2) {
      pick = b;
    } else {
      // distance V-a against b-V:  2V against a+b
      int cmp = Long.compare(vf - a, b - vf); // ignoring V's fraction
      if (cmp == 0 && !vExact) cmp = 1;
      if (cmp < 0 && !vExact) {
        // V-a = (vf-a)+frac, b-V = (b-vf)-frac; the integer gap is at least 1 below equality
        BigInteger twoV = v.multiply(num).shiftLeft(1);
        BigInteger sum = BigInteger.valueOf(a).add(BigInteger.valueOf(b)).multiply(den);
        cmp = twoV.compareTo(sum);
      }
      pick = cmp < 0 ? a : cmp > 0 ? b : (a / step % 2 == 0 ? a : b);
    }
    return new BigDecimal(BigInteger.valueOf(pick), -k).stripTrailingZeros();
  }

  private static int digits(long vf, long step) {
    return Long.toString(vf / step).length();
  }

  /** Bit 0: lower neighbour is inside, bit 1: upper neighbour is inside. */
  private static int inside(
      long vf, long step, long lf, long hf, boolean lExact, boolean hExact, boolean inclusive) {
    long a = vf - vf % step;
    long b = a + step;
    int r = 0;
    if (a > 0 && (a > lf || a == lf && lExact && inclusive)) r |= 1;
    if (b <= hf && !(b == hf && hExact && !inclusive)) r |= 2;
    return r;
  }
}
