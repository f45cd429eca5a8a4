package mc;

/** Argument consumption. */
final class C09 extends Check {

  private static final String[] PIECES = {
    "%d", "%s", "%*d", "%.*d", "%*.*d", "%-*d", "%0*d", "%*s", "%.*s", "%*.*s", "%.*f", "%*.*e", "%*c", "%n", "%*n", "%.*n", "%*.*n", "%%", "%5%", "%-%", "%*%", "%.*%", "lit",
    "%x", "%#*x", "%c", "%*.*g", "%*a", "%S", "%5d", "%.3d"
  };

  static final Object[] STARS = {
    3, -4, 0, "7", "-6", 2.6, -2.5f, 'A', true, null, new Ref.Prim(5), new Ref.Prim(-5), 9L, (byte) -3, "x", "", 65536, -65536, 65537, -65537, Integer.MAX_VALUE, Integer.MIN_VALUE, 4294967299L,
    new java.math.BigDecimal("4.9"), java.math.BigInteger.TEN, new Object[0], Double.NaN, new Ref.Prim(1e300), new Ref.Prim((short) 12), new Ref.Prim('\u0006')
  };

  @Override
  void define() {
    phase(
        "one directive",
        PIECES.length + " pieces x all argument lists of length 0..3 over " + STARS.length + " values (large sizes once)",
        p -> {
          int i = p.choose(PIECES.length * STARS.length);
          String f = PIECES[i % PIECES.length];
          Object first = STARS[i / PIECES.length];
          int n = p.choose(4);
          Object[] a = new Object[n];
          for (int k = 0; k < n; k++) a[k] = k == 0 ? first : p.pick(STARS);
          if (n == 0 && i / PIECES.length > 0) return;
          Impl.check(p, "<" + f + ">", a);
        });
    final Object[] small = {3, -4, "7", 'A', null};
    phase(
        "two directives",
        PIECES.length + "^2 pairs x all argument lists of length 0..5 over 5 values",
        p -> {
          int i = p.choose(PIECES.length * PIECES.length);
          String f = PIECES[i / PIECES.length] + "|" + PIECES[i % PIECES.length];
          int n = p.choose(6);
          Object[] a = new Object[n];
          for (int k = 0; k < n; k++) a[k] = n > 4 ? p.pick(SMALLER) : p.pick(small);
          Impl.check(p, f, a);
        });
    final Object[] seq = {3, 4, 51, -6, 7, 8, "9", 10, 11, 12, 13, 14};
    final Object[] seq2 = {-5, -1, 2, 0, 9, -3, 1, 6, -2, 4, 8, 3};
    phase(
        "three and four directives",
        PIECES.length + "^3 triples (and 14^4 quadruples) x argument counts 0..12 x 2 argument sequences",
        p -> {
          int first = p.choose(PIECES.length + 1);
          boolean four = first == PIECES.length;
          StringBuilder f = new StringBuilder();
          if (four) {
            for (int i = 0; i < 4; i++) f.append(PIECES[p.choose(14)]).append(',');
          } else {
            f.append(PIECES[first]).append(p.pick(PIECES)).append(p.pick(PIECES));
          }
          int n = p.choose(13);
          Object[] base = p.flip() ? seq2 : seq;
          Impl.check(p, f.toString(), java.util.Arrays.copyOf(base, n));
        });
    final Object[] vals = {0, -17, 1234567L, 2.5, -0.001, "text", 'q', new java.math.BigDecimal("12.345"), null, new Ref.Prim(77)};
    phase(
        "star equals number",
        "width -40..40, precision -3..25, 32 flag sets, 20 conversions with and without date patterns: %*.*X equals %w.pX",
        p -> {
          int w = p.choose(81) - 40;
          int q = p.choose(29) - 3;
          String flags = p.pick(FLAG_SETS);
          int k = p.choose(20);
          char c = "diuoxXfegGEaAcsSpttT".charAt(k);
          String pattern = k < 18 ? "" : "{yyyy, MMM}";
          Object v = k < 17 ? p.pick(vals) : p.pick(new Object[] {java.time.LocalDate.of(2024, 2, 29), java.time.ZonedDateTime.of(1999, 12, 31, 23, 59, 59, 7, java.time.ZoneOffset.UTC), 5});
          boolean neg = w < 0;
          String fl = neg && flags.indexOf('-') < 0 ? "-" + flags : flags;
          String written = directive(fl, Math.abs(w), Math.max(-1, q), c) + pattern;
          String star = "%" + flags + "*.*" + c + pattern;
          Ref.Out x = Impl.run(written, v);
          Ref.Out y = Impl.run(star, w, q, v);
          p.trace();
          p.state(star, y);
          if (!x.equals(y)) p.fail(Show.call(star, w, q, v) + " gave " + y + " but " + Show.call(written, v) + " gave " + x);
        });
    phase(
        "representations of a star",
        "star numbers -70..70, 100, 1000, 65535, 65536 and beyond the limit, each as byte, short, int, long, char, float, double, BigInteger, BigDecimal of 8 scales and fractions, text, builders, own numbers, dates and primitives, as width and as precision x 5 conversions",
        p -> {
          int k = p.choose(141 + 8);
          long n = k < 141 ? k - 70 : new long[] {100, 1000, 65535, 65536, 65537, -65536, -65537, 1L << 32}[k - 141];
          Object star = p.pick(representations(n));
          String conv = p.pick(new String[] {"d", "s", "e", "x", "c"});
          Object v = "e".equals(conv) ? (Object) 1.25 : "s".equals(conv) ? "some text" : (Object) 77;
          switch (p.choose(4)) {
            case 0:
              Impl.check(p, "%*" + conv + "%s", star, v, "next");
              break;
            case 1:
              Impl.check(p, "%.*" + conv + "%s", star, v, "next");
              break;
            case 2:
              Impl.check(p, "%0*.*" + conv, star, star, v);
              break;
            default:
              Impl.check(p, "%*" + conv + "%-*" + conv, star, v, star, v);
          }
        });
    phase(
        "surplus arguments",
        "corpus with 1..3 surplus arguments of any kind",
        p -> {
          Corpus.Item it = p.pick(Corpus.items());
          int n = p.choose(3) + 1;
          Object[] a = java.util.Arrays.copyOf(it.args, it.args.length + n);
          for (int k = it.args.length; k < a.length; k++) a[k] = p.pick(new Object[] {null, "s", -1, new Bomb()});
          Impl.check(p, it.fmt, a);
        });
    phase(
        "missing arguments",
        "corpus with every shorter argument list",
        p -> {
          Corpus.Item it = p.pick(Corpus.items());
          int n = p.choose(it.args.length + 1);
          Impl.check(p, it.fmt, java.util.Arrays.copyOf(it.args, n));
        });
    phase(
        "many directives",
        "n directives of one kind with n-1, n, n+1 argument groups, n = 1..200",
        p -> {
          int n = p.choose(200) + 1;
          int kind = p.choose(4);
          StringBuilder f = new StringBuilder();
          for (int i = 0; i < n; i++) f.append(new String[] {"%d,", "%*d", "%*.*f", "%n%s%%"}[kind]);
          int per = new int[] {1, 2, 3, 2}[kind];
          int count = Math.max(0, n * per + p.choose(5) - 2);
          Object[] a = new Object[count];
          for (int i = 0; i < count; i++) a[i] = kind == 0 ? i : i % 7;
          Impl.check(p, f.toString(), a);
        });
  }

  /** The number n, and numbers a cast or rounding takes to it or next to it, in every type that can hold them. */
  static java.util.List<Object> representations(long n) {
    java.util.List<Object> l = new java.util.ArrayList<>();
    if (n == (byte) n) C20.both(l, (byte) n);
    if (n == (short) n) C20.both(l, (short) n);
    if (n == (int) n) C20.both(l, (int) n);
    C20.both(l, n);
    if (n == (char) n) C20.both(l, (char) n);
    for (double d : new double[] {0, 0.25, 0.5, -0.5, 0.75, -0.25}) C20.both(l, (float) (n + d), n + d);
    java.math.BigInteger big = java.math.BigInteger.valueOf(n);
    l.add(big);
    l.add(new java.math.BigInteger(big.toByteArray()));
    java.math.BigDecimal dec = new java.math.BigDecimal(big);
    for (String add : new String[] {"0", "0.0", "0.000", "0.4", "0.5", "0.99", "-0.5", "1E-30"}) l.add(dec.add(new java.math.BigDecimal(add)));
    l.add(dec.stripTrailingZeros());
    l.add(dec.setScale(40));
    l.add(Long.toString(n));
    l.add(n < 0 ? "-0" + -n : "0" + n);
    l.add("+" + n);
    l.add(n + ".0");
    l.add(new StringBuilder().append(n));
    l.add(io.fastprintf.seq.Seq.wrap(Long.toString(n)));
    l.add(Long.toString(n).toCharArray());
    l.add(new java.util.concurrent.atomic.AtomicLong(n));
    l.add(new java.util.Date(n * 1000));
    l.add(new java.util.Date(n * 1000 + 999));
    l.add(java.time.Instant.ofEpochSecond(n, 999_999_999));
    l.add(java.time.Instant.ofEpochSecond(n).atOffset(java.time.ZoneOffset.ofHours(5)));
    return l;
  }

  private static final Object[] SMALLER = {3, -4, "7"};

  /** Must never be looked at. */
  static final class Bomb implements Ref.Modelled {
    @Override
    public String modelText() {
      throw new AssertionError("surplus argument used");
    }

    @Override
    public String toString() {
      throw new AssertionError("surplus argument used");
    }
  }
}
