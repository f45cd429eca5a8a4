package mc;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Integer conversions against the C model. */
final class C01 extends Check {

  private static final char[] CONV = {'d', 'i', 'u', 'o', 'x', 'X'};

  /** Distinct layouts used with all values. */
  private static final String[] LAYOUTS = {
    "", "5", "12", "30", "-12", "+", " ", "#", "0", "08", "+08", " 08", "-08", "#08", "#012", "#+ 012", "#-12",
    ".0", ".1", ".3", ".8", ".20", "12.8", "012.8", "-12.8", "+.0", " .0", "#.0", "#.3", "#12.8", "#-12.8", "020", "#024",
    "+#-20.11", "66", "#066", ".66"
  };

  @Override
  void define() {
    final List<Object> wide = new ArrayList<>();
    for (int b = -128; b <= 127; b++) {
      wide.add((byte) b);
      wide.add(new Ref.Prim((byte) b));
    }
    for (BigInteger v : Values.integers(16, 2, true)) {
      wide.add(v.shortValue());
      wide.add(new Ref.Prim(v.shortValue()));
    }
    for (BigInteger v : Values.integers(32, 2, true)) {
      wide.add(v.intValue());
      wide.add(new Ref.Prim(v.intValue()));
    }
    for (int i = -1100; i <= 1100; i++) {
      wide.add(i);
      wide.add(new Ref.Prim(i));
      wide.add((long) i);
      wide.add(new Ref.Prim((long) i));
      wide.add(BigInteger.valueOf(i));
    }
    for (BigInteger v : Values.integers(64, 2, true)) {
      wide.add(v.longValue());
      wide.add(new Ref.Prim(v.longValue()));
      wide.add(v);
    }
    for (BigInteger v : Values.integers(220, 1, false)) wide.add(v);
    for (int c = 0; c < 0x10000; c += c < 300 ? 1 : 251) wide.add(new Ref.Prim((char) c));
    wide.add(Character.MAX_VALUE);
    wide.add(true);
    wide.add(false);
    wide.add(new Ref.Prim(true));
    final String[] wideLayouts = LAYOUTS;
    phase(
        "values",
        wide.size() + " values of all types x " + wideLayouts.length + " layouts x 6 conversions",
        p -> {
          Object v = p.pick(wide);
          String lay = p.pick(wideLayouts);
          char c = CONV[p.choose(6)];
          Impl.check(p, "%" + lay + c, v);
        });

    final List<Object> few = new ArrayList<>();
    few.addAll(
        Arrays.<Object>asList(
            (byte) 0, (byte) -1, (byte) 127, (byte) -128, (short) 0, (short) 255, Short.MIN_VALUE,
            0, 1, -1, 7, 8, -8, 9, 10, 99, 100, -100, 4096, 123456789, Integer.MAX_VALUE, Integer.MIN_VALUE,
            0L, 1L, -1L, 1234567890123L, Long.MAX_VALUE, Long.MIN_VALUE,
            new Ref.Prim(0), new Ref.Prim(42), new Ref.Prim(-42), new Ref.Prim(0L), new Ref.Prim('A'), true, false));
    few.add(BigInteger.ZERO);
    few.add(BigInteger.ONE.negate());
    few.add(BigInteger.TEN);
    few.add(BigInteger.ONE.shiftLeft(64));
    few.add(BigInteger.ONE.shiftLeft(64).negate());
    few.add(BigInteger.TEN.pow(40));
    final int[] widths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 31, 32, 33, 48, 64, 65, 129};
    final int[] precs = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 32, 33, 64, 65, 128};
    phase(
        "layouts",
        "32 flag sets x " + widths.length + " widths x " + precs.length + " precisions x 6 conversions x " + few.size() + " values",
        p -> {
          Object v = p.pick(few);
          String fl = p.pick(FLAG_SETS);
          int w = p.pick(widths);
          int q = p.pick(precs);
          char c = CONV[p.choose(6)];
          Impl.check(p, directive(fl, w, q, c), v);
        });

    final int[] bigs = {127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 16384, 32767, 32768, 65535, 65536};
    final Object[] bigVals = {0, 1, -1, Integer.MIN_VALUE, Long.MAX_VALUE, (byte) -7, BigInteger.TEN.pow(30)};
    phase(
        "large sizes",
        "flag sets x " + bigs.length + " large widths/precisions x 6 conversions x " + bigVals.length + " values",
        p -> {
          int n = p.pick(bigs);
          boolean prec = p.flip();
          String fl = p.pick(FLAG_SETS);
          char c = CONV[p.choose(6)];
          Object v = p.pick(bigVals);
          Impl.check(p, prec ? directive(fl, 0, n, c) : directive(fl, n, -1, c), v);
        });

    phase(
        "every width and precision",
        "all widths 0..300 and all precisions 0..300 x 6 conversions x 8 flag sets x 3 values",
        p -> {
          int n = p.choose(301);
          boolean prec = p.flip();
          String fl = p.pick(new String[] {"", "-", "0", "#", "+", " ", "#0", "+0"});
          char c = CONV[p.choose(6)];
          Object v = p.pick(new Object[] {0, -93, 8217L});
          Impl.check(p, prec ? directive(fl, 0, n, c) : directive(fl, n, -1, c), v);
        });

    phase(
        "all shorts",
        "all 65536 shorts (and as ints) x 6 conversions",
        p -> {
          int hi = p.choose(256);
          int lo = p.choose(256);
          short s = (short) (hi << 8 | lo);
          char c = CONV[p.choose(6)];
          Impl.check(p, "%" + c, s);
          Impl.check(p, "%#" + c, (int) s);
        });

    phase(
        "huge integers",
        "BigIntegers of all bit lengths 221..1100 and 2^k to 2^17 bits: 2^k-1, 2^k, 10^(k*0.3), 2^k/7, 2^k/3, both signs x 6 conversions x 8 layouts",
        p -> {
          int k = p.choose(880 + 7) + 221;
          if (k > 1100) k = 1 << k - 1101 + 11;
          BigInteger v = BigInteger.ONE.shiftLeft(k);
          int shape = p.choose(k > 5000 ? 3 : 5);
          if (shape == 0) v = v.subtract(BigInteger.ONE);
          else if (shape == 1) v = v.divide(BigInteger.valueOf(7));
          else if (shape == 3) v = v.divide(BigInteger.valueOf(3)).add(BigInteger.ONE);
          else if (shape == 4) v = BigInteger.TEN.pow(k * 3 / 10);
          if (p.flip()) v = v.negate();
          char c = CONV[p.choose(6)];
          String lay = p.pick(new String[] {"", "#", "+", "300", "-300", "0400", ".350", "#-+500.333"});
          Impl.check(p, "%" + lay + c, v);
        });

    phase(
        "decimal chunks",
        "all groups of 4 digits at all places of a number of 18 digits (and of the last 18 or 9 digits of a long or int of all its digits, signed and unsigned), in three surroundings, as int (if it fits), long and BigInteger, both signs; all groups of 3 at all places of 40 digits x d,u",
        p -> {
          int group = p.choose(1000);
          boolean big = p.flip();
          int more = big ? 0 : p.choose(10);
          String g = big ? String.format("%03d", group) : String.format("%03d%d", group, more);
          int at = p.choose((big ? 40 : 18) - g.length() + 1);
          char fill = p.pick(new Character[] {'0', '1', '9'});
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < at; i++) b.append(fill);
          b.append(g);
          while (b.length() < (big ? 40 : 18)) b.append(fill);
          BigInteger v = new BigInteger(b.toString());
          if (!big) {
            // all the digits a long, an unsigned long and an int can have
            Impl.check(p, "%d", Long.parseLong("1" + b));
            Impl.check(p, "%d", -Long.parseLong("8" + b));
            Impl.check(p, "%u", new BigInteger("10" + b).longValue());
            Impl.check(p, "%u", new BigInteger("17" + b).longValue());
            if (at >= 9) {
              Impl.check(p, "%d", Integer.parseInt("1" + b.substring(9)));
              Impl.check(p, "%u", (int) Long.parseLong("3" + b.substring(9)));
              Impl.check(p, "%d", -Integer.parseInt("1" + b.substring(9)));
            }
            Impl.check(p, "%d", v.longValue());
            Impl.check(p, "%u", new Ref.Prim(v.longValue()));
            if (v.bitLength() < 32) Impl.check(p, "%+i", -v.intValue());
            if (at < 8) Impl.check(p, "%u", (int) (v.longValue() / 100000000 % 10000000000L));
          }
          Impl.check(p, "%d", v.negate());
        });
    phase(
        "binary chunks",
        "all groups of 12 bits at all places of 64 bits (and of 130), in two surroundings, as int, long and BigInteger x o,x,X",
        p -> {
          int group = p.choose(4096);
          boolean big = p.flip();
          int at = big ? p.choose(13) * 10 : p.choose(53);
          BigInteger v = BigInteger.valueOf(group).shiftLeft(at);
          if (p.flip()) v = v.or(BigInteger.ONE.shiftLeft(big ? 130 : 64).subtract(BigInteger.ONE).andNot(BigInteger.valueOf(4095).shiftLeft(at)));
          char c = "oxX".charAt(p.choose(3));
          Impl.check(p, "%" + c, v);
          if (!big) {
            Impl.check(p, "%#" + c, v.longValue());
            Impl.check(p, "%" + c, v.intValue());
          }
        });

    if (thorough) {
      phase(
          "all 24-bit ints and their multiples",
          "v = k*257+offset over the int range, all k in 2^24, x d,x",
          p -> {
            int hi = p.choose(4096);
            int lo = p.choose(4096);
            int v = (hi << 12 | lo) * 257 + 131;
            Impl.check(p, "%d", v);
            Impl.check(p, "%#x", v);
          });
    }
    assumptions.add("Values outside the enumerated families behave like those inside (small-scope).");
    assumptions.add("The model's integer part is replayed against glibc in the glibc phase when a C compiler is present.");
  }

  /** The model itself, against the C library. */
  @Override
  void after(Explorer x) throws Exception {
    Glibc g = new Glibc();
    int[] widths = {0, 1, 4, 7, 12, 23};
    int[] precs = {-1, 0, 1, 4, 9, 20};
    for (String fl : FLAG_SETS) {
      for (int w : widths) {
        for (int q : precs) {
          for (char c : CONV) {
            String d = directive(fl, w, q, c);
            String head = d.substring(0, d.length() - 1);
            for (int v : new int[] {0, 1, -1, 8, -42, 123456, Integer.MAX_VALUE, Integer.MIN_VALUE}) {
              g.add('i', d, "" + v, d, v);
            }
            for (int v : new int[] {0, -1, 127, -128}) g.add('i', head + "hh" + c, "" + v, d, (byte) v);
            for (int v : new int[] {-1, 4095, -32768}) g.add('i', head + "h" + c, "" + v, d, (short) v);
            for (long v : new long[] {0, -1, 1234567890123L, Long.MAX_VALUE, Long.MIN_VALUE}) {
              g.add('l', head + "ll" + c, "" + v, d, v);
            }
          }
        }
      }
      for (char c : CONV) {
        for (int w = -12; w <= 12; w++) {
          g.add('w', "%" + fl + "*" + c, w + ",77", "%" + fl + "*" + c, w, 77);
          for (int q = -2; q <= 8; q += 2) {
            String d = "%" + fl + "*.*" + c;
            g.add('p', d, w + "," + q + ",-93", d, w, q, -93);
          }
        }
      }
    }
    g.run(x);
  }
}
