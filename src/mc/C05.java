package mc;

/** %a and %A of doubles. */
final class C05 extends Check {
  @Override
  void define() {
    final long[] mant = Values.mantissas(thorough);
    phase(
        "binades",
        "all 2048 binary exponents x " + mant.length + " mantissas x precisions none,0..15",
        p -> {
          int e = p.choose(2048);
          long m = mant[p.choose(mant.length)];
          double v = Double.longBitsToDouble((long) e << 52 | m);
          int q = p.choose(17) - 1;
          Impl.check(p, directive("", 0, q, 'a'), v);
        });
    final long[] many = Values.mantissas(true);
    phase(
        "rounding",
        many.length + " mantissas and all two-digit tails x 9 exponents x sign x precisions 0..14",
        p -> {
          int i = p.choose(many.length + 13 * 256);
          long m = i < many.length ? many[i] : ((long) ((i - many.length) % 256)) << 4 * Math.max(0, (i - many.length) / 256 - 1) & 0xFFFFFFFFFFFFFL;
          int e = p.pick(new int[] {0, 1, 2, 512, 1022, 1023, 1024, 2045, 2046});
          double v = Double.longBitsToDouble((long) e << 52 | m);
          int q = p.choose(15);
          Impl.check(p, directive("", 0, q, p.flip() ? 'A' : 'a'), p.flip() ? -v : v);
        });
    phase(
        "hexadecimal chunks",
        "all groups of 3 hexadecimal digits at all places of the mantissa, in three surroundings x 5 exponents x precisions none,0..13",
        p -> {
          int group = p.choose(4096);
          int at = 4 * p.choose(11);
          long fill = new long[] {0, 0x7777777777777L, 0xFFFFFFFFFFFFFL}[p.choose(3)];
          long m = fill & ~(4095L << at) | (long) group << at;
          int e = p.pick(new int[] {0, 1, 1000, 1023, 2046});
          Impl.check(p, directive("", 0, p.choose(15) - 1, 'a'), Double.longBitsToDouble((long) e << 52 | m));
        });
    final Object[] few = {
      0.0, -0.0, 1.0, -1.0, 0.1, -123.456, 1.9999999999999998, 1e300, 5e-324, -2.2250738585072009e-308, Double.MIN_NORMAL, Double.MAX_VALUE, Double.NaN,
      Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, 1.5f, new Ref.Prim(0.3f), new Ref.Prim(-7.25), 42, new Ref.Prim(-3L), (byte) -1, Float.MIN_VALUE
    };
    final int[] widths = {0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 16, 20, 21, 22, 23, 24, 25, 26, 30, 40, 100};
    final int[] precs = {-1, 0, 1, 2, 3, 5, 11, 12, 13, 14, 15, 20, 50};
    phase(
        "layouts",
        "32 flag sets x " + widths.length + " widths x " + precs.length + " precisions x 2 conversions x " + few.length + " values",
        p -> {
          Object v = p.pick(few);
          String fl = p.pick(FLAG_SETS);
          int w = p.pick(widths);
          int q = p.pick(precs);
          Impl.check(p, directive(fl, w, q, p.flip() ? 'A' : 'a'), v);
        });
    phase(
        "subnormals",
        "all subnormals below 2^16 and 2^k-1, 2^k, 2^k+1 x precisions none,0..13",
        p -> {
          int i = p.choose(256);
          int j = p.choose(257);
          long m = j < 256 ? i << 8 | j : i < 156 ? (1L << i / 3) + i % 3 - 1 : i;
          double v = Double.longBitsToDouble(m & 0xFFFFFFFFFFFFFL);
          Impl.check(p, directive("", 0, p.choose(15) - 1, 'a'), v);
        });
    phase(
        "floats",
        "all float exponents x 24 mantissas x precisions",
        p -> {
          int e = p.choose(256);
          int m = p.choose(24);
          float v = Float.intBitsToFloat((p.flip() ? 1 << 31 : 0) | e << 23 | (1 << m) - 1);
          Impl.check(p, directive("", 0, p.choose(9) - 1, 'a'), p.flip() ? (Object) v : new Ref.Prim(v));
        });
    phase(
        "large sizes",
        "large widths and precisions",
        p -> {
          int n = p.pick(new int[] {64, 100, 1000, 4096, 65535, 65536});
          boolean prec = p.flip();
          String fl = p.pick(FLAG_SETS);
          Object v = p.pick(few);
          Impl.check(p, prec ? directive(fl, 0, n, 'a') : directive(fl, n, -1, 'A'), v);
        });
    assumptions.add("The normal form is Java's Double.toHexString form, as the product documents.");
  }
}
