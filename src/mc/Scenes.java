package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.Specifier;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.function.Supplier;
import mc.sched.Scenario;

/** The concurrent programs explored by C12; loaded together with the instrumented product. */
public final class Scenes {
  private Scenes() {}

  private static String show(Ref.Out o) {
    return o.kind == Ref.Kind.OK ? o.text : "<" + o.kind + ">";
  }

  /** Expected results are those of the model for each call on its own. */
  abstract static class Calls implements Scenario {
    final String name;
    final int threads;

    Calls(String name, int threads) {
      this.name = name;
      this.threads = threads;
    }

    @Override
    public int threads() {
      return threads;
    }

    @Override
    public void setup() {}

    @Override
    public String toString() {
      return name;
    }
  }

  private static final Object SHARED_OBJECT = Scenario.POINTER;

  private static Object[] l(Object... o) {
    return o;
  }

  /** Formats with three argument lists each. */
  private static final Object[][] FORMATS = {
    {"%d", l(1), l(-22222), l(7000000000L)},
    {"<%+5d|%-5d>", l(1, 2), l(-333, 444444), l(100, 200)},
    {"%*d", l(3, 7), l(-9, 8), l(0, 100)},
    {"%-*.*d|", l(3, 2, 7), l(9, 5, -8), l(1, -1, 100)},
    {"%#x %X", l(255, 10L), l((byte) -1, 65000), l(BigInteger.TEN, 77)},
    {"%#o%u", l(8, -1), l(0, 4000000000L), l((short) 9, 1)},
    {"%f", l(1.5), l(-123456.789), l(new BigDecimal("99.25"))},
    {"%.*f|%+012.3f", l(1, 2.25, 3.5), l(4, -0.5, 1e10), l(0, 7.5, -2.0)},
    {"%e %.3G", l(new BigDecimal("1.5e-20"), new BigDecimal("123456789")), l(new BigDecimal("-7e33"), new BigInteger("99999999999999999999")), l(new BigDecimal("12.5"), new BigDecimal("0.00001"))},
    {"%e %G", l(1.0, 2e-9), l(-5.5e100, 123456789.0), l(0.0, 1.0f)},
    {"%.3g|%#g", l(1234.5, 0.5), l(0.00001, 100.0), l(-1.0, 3.0)},
    {"%a %A", l(1.0, 0.1), l(-3.5, 1e300), l(0.0, 2.0f)},
    {"%s", l("a"), l("a longer text than sixteen"), l(12)},
    {"%6s|%-6s|%.2s", l("a", "b", "ccc"), l("dddddddd", "", "e"), l(true, null, 12.5)},
    {"%S%c", l("abc", 'x'), l("Straße", 65), l(Arrays.asList("p", "q"), "zed")},
    {"%t", l(LocalDateTime.of(2020, 1, 2, 3, 4, 5)), l(LocalDate.of(1999, 12, 31)), l(0)},
    {"%T{uuuu-MM} %t{dd}", l(LocalDate.of(2020, 1, 2), LocalDate.of(2021, 3, 4)), l(LocalDate.of(1999, 12, 31), 86400L), l(0, 1)},
    {"%p%n%%", l(SHARED_OBJECT, 1), l(SHARED_OBJECT, 2), l(SHARED_OBJECT, null)},
    {"text %s and %d and %5.1f and %x of a long literal", l("A", 1, 2.0, 3), l("BBBBBBBBBBBBBBBBBBBB", 11, -22.25, 33), l(null, 5, 6f, 7)},
    {"%s%d", l("ok", 1), l("bad", "no number"), l("missing")},
    {"%*s|", l(4, "w"), l(70000, "too wide"), l(-4, "left")},
  };

  private static FastPrintf variant(String fmt, int v) {
    FastPrintf f = FastPrintf.compile(fmt);
    switch (v) {
      case 0:
        return f;
      case 1:
        return f.enableThreadLocalCache();
      case 2:
        return f.setStringBuilderInitialCapacity(3);
      default:
        return f.enableThreadLocalCache().setStringBuilderInitialCapacity(70000);
    }
  }

  private static final String[] VARIANT = {"plain", "cached", "capacity", "cached+capacity"};

  /** All threads use one formatter, each with arguments of its own, {@code calls} times. */
  private static final class SameFormatter extends Calls {
    final Object[] row;
    final int variant;
    final int calls;
    private FastPrintf f;

    SameFormatter(Object[] row, int variant, int threads, int calls) {
      super(threads + " threads, " + calls + " call(s) each on " + VARIANT[variant] + " \"" + row[0] + "\"", threads);
      this.row = row;
      this.variant = variant;
      this.calls = calls;
    }

    @Override
    public void setup() {
      f = variant((String) row[0], variant);
    }

    private Object[] args(int thread, int call) {
      return (Object[]) row[1 + (thread + call) % 3];
    }

    @Override
    public String run(int t) {
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < calls; i++) b.append(show(Impl.run(f, args(t, i)))).append('\n');
      return b.toString();
    }

    @Override
    public String expected(int t) {
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < calls; i++) b.append(show(Ref.format((String) row[0], args(t, i)))).append('\n');
      return b.toString();
    }
  }

  /** Threads share one argument list; formatters shared or not; to different sinks. */
  private static final class SharedArgs extends Calls {
    final Object[] row;
    final int variant;
    final boolean oneFormatter;
    final int list;
    private FastPrintf[] f;
    private Args args;

    SharedArgs(Object[] row, int variant, boolean oneFormatter, int list) {
      super("shared arguments, " + (oneFormatter ? "one formatter " : "two formatters ") + VARIANT[variant] + " \"" + row[0] + "\" list " + list, 2);
      this.row = row;
      this.variant = variant;
      this.oneFormatter = oneFormatter;
      this.list = list;
    }

    @Override
    public void setup() {
      f = new FastPrintf[2];
      f[0] = variant((String) row[0], variant);
      f[1] = oneFormatter ? f[0] : variant((String) row[0], variant);
      args = Impl.args((Object[]) row[list]);
    }

    @Override
    public String run(int t) {
      try {
        String s;
        if (t == 0) s = f[0].format(args);
        else if (variant % 2 == 0) s = f[1].format(new StringBuilder(), args).toString();
        else s = f[1].format(new C10.Own(false), args).got.toString();
        return s + args.values().size();
      } catch (Throwable e) {
        return show(Impl.formatOutcome(e, ""));
      }
    }

    @Override
    public String expected(int t) {
      Ref.Out o = Ref.format((String) row[0], (Object[]) row[list]);
      return show(o) + (o.kind == Ref.Kind.OK ? "" + ((Object[]) row[list]).length : "");
    }
  }

  static Seq sequence(int kind) {
    return SharedSeq.make(kind);
  }

  static final int SEQUENCES = SharedSeq.KINDS;
  static final int SEQUENCE_USES = SharedSeq.USES;

  /** A sequence of some kind, used twice in different ways by run(0) and run(1). */
  static Calls usedTwice(int kind, int first, int second) {
    return new SharedSeq(kind, first, second);
  }

  static String sequenceText(int kind) {
    return SharedSeq.text(kind);
  }

  /** Threads use one sequence object, as an argument and directly. */
  private static final class SharedSeq extends Calls {
    final int kind;
    final int use0;
    final int use1;
    private Seq seq;
    private FastPrintf f;
    private Args args;

    SharedSeq(int kind, int use0, int use1) {
      super("shared sequence " + kind + " used as " + use0 + " and " + use1, 2);
      this.kind = kind;
      this.use0 = use0;
      this.use1 = use1;
    }

    static final int KINDS = 9;
    static final int USES = 10;

    static Seq make(int kind) {
      switch (kind) {
        case 0:
          return Seq.lazy(b -> b.append("lazY"), 4);
        case 1:
          return Seq.lazy(b -> b.append("laz").append("y longer than sixteen"), 24).upperCase();
        case 2:
          return Seq.wrap("atom");
        case 3:
          return Seq.forArray("##array#".toCharArray(), 2, 5);
        case 4:
          return Seq.concat(Seq.wrap("le"), Seq.lazy(b -> b.append("ft"), 2));
        case 5:
          return Seq.join(Arrays.<AtomicSeq>asList(Seq.ch('a'), Seq.lazy(b -> b.append("bc"), 2), Seq.wrap("def")));
        case 6:
          return Seq.repeated('r', 20);
        case 7:
          return Seq.concat(Seq.concat(Seq.wrap("x"), Seq.repeated('y', 2)), Seq.forArray("zz".toCharArray())).upperCase();
        default:
          return Seq.lazy(b -> b.append("0123456789"), 10).subSequence(2, 7);
      }
    }

    static String text(int kind) {
      String[] t = {"lazY", "LAZY LONGER THAN SIXTEEN", "atom", "array", "left", "abcdef", "rrrrrrrrrrrrrrrrrrrr", "XYYZZ", "23456"};
      return t[kind];
    }

    @Override
    public void setup() {
      seq = make(kind);
      f = FastPrintf.compile("%s|%3.2S").enableThreadLocalCache();
      args = Args.of(seq, seq);
    }

    @Override
    public String run(int t) {
      switch (t == 0 ? use0 : use1) {
        case 0:
          return seq.toString();
        case 1:
          return f.format(Args.of(seq, seq));
        case 2:
          return f.format(args);
        case 3:
          StringBuilder b = new StringBuilder();
          seq.appendTo(b);
          return b.toString();
        case 4:
          StringBuilder c = new StringBuilder();
          for (int i = 0; i < seq.length(); i++) c.append(seq.charAt(i));
          return c.toString();
        case 5:
          return seq.upperCase().toString();
        case 6:
          return seq.subSequence(1, seq.length() - 1).toString() + seq.indexOf('a');
        case 7:
          return seq.append(Seq.ch('!')).prepend(seq).toString() + seq.isEmpty();
        case 8: // equal sequences have equal hashes
          Seq same = make(kind);
          int h = seq.hashCode();
          return (!seq.equals(same) || h == same.hashCode()) && h == seq.hashCode() ? "consistent" : "hash " + h + " and " + seq.hashCode();
        default:
          StringBuilder parts = new StringBuilder();
          if (!(seq instanceof Iterable)) return seq.toString();
          for (Object part : (Iterable<?>) seq) parts.append(part);
          return parts.toString();
      }
    }

    @Override
    public String expected(int t) {
      String s = text(kind);
      switch (t == 0 ? use0 : use1) {
        case 0:
        case 3:
        case 4:
        case 9:
          return s;
        case 8:
          return "consistent";
        case 1:
        case 2:
          return s + "| " + s.substring(0, 2).toUpperCase(java.util.Locale.ROOT);
        case 5:
          return s.toUpperCase(java.util.Locale.ROOT);
        case 6:
          return s.substring(1, s.length() - 1) + s.indexOf('a');
        default:
          return s + s + "!" + s.isEmpty();
      }
    }
  }

  /** Threads derive variants of one formatter and use them, while others use the original. */
  private static final class Derive extends Calls {
    final int which;
    private FastPrintf f;

    Derive(int which, int threads) {
      super("derive " + which + " with " + threads + " threads", threads);
      this.which = which;
    }

    @Override
    public void setup() {
      f = FastPrintf.compile("%s-%05d|%t{uuuu}");
      if ((which & 1) != 0) f = f.enableThreadLocalCache();
    }

    private Object[] args(int t) {
      return new Object[] {"thread" + t, t * 1111, LocalDate.of(2000 + t, 1, 1)};
    }

    @Override
    public String run(int t) {
      FastPrintf g = f;
      switch ((t + (which >> 1)) % 3) {
        case 0:
          g = f.enableThreadLocalCache();
          break;
        case 1:
          g = f.setStringBuilderInitialCapacity(t + 5);
          break;
        default:
          break;
      }
      return show(Impl.run(g, args(t))) + show(Impl.run(f, args(t + 3)));
    }

    @Override
    public String expected(int t) {
      return show(Ref.format("%s-%05d|%t{uuuu}", args(t))) + show(Ref.format("%s-%05d|%t{uuuu}", args(t + 3)));
    }
  }

  /** Threads compile and format at once. */
  private static final class Compile extends Calls {
    final String[] formats;

    Compile(String... formats) {
      super("compile " + Arrays.toString(formats), formats.length);
      this.formats = formats;
    }

    private Object[] args(int t) {
      return new Object[] {t + 1, "arg" + t, t + 0.25, "rest"};
    }

    @Override
    public String run(int t) {
      return show(Impl.run(formats[t], args(t)));
    }

    @Override
    public String expected(int t) {
      return show(Ref.format(formats[t], args(t)));
    }
  }

  /** Two threads compile and format items of the corpus; the list of arguments is shared if the item is. */
  private static final class Items extends Calls {
    final Corpus.Item[] items;
    private FastPrintf shared;
    private Args args;

    Items(Corpus.Item a, Corpus.Item b) {
      super("compile and format " + a + " and " + b, 2);
      items = new Corpus.Item[] {a, b};
    }

    @Override
    public void setup() {
      shared = FastPrintf.compile(items[1].fmt).enableThreadLocalCache();
      args = Impl.args(items[1].args);
    }

    private static String text(Runnable1 r) {
      try {
        return r.run();
      } catch (Throwable e) {
        return show(Impl.formatOutcome(e, ""));
      }
    }

    private interface Runnable1 {
      String run();
    }

    @Override
    public String run(int t) {
      return show(Impl.run(items[t].fmt, items[t].args)) + "\n" + text(() -> shared.format(args)) + "\n" + text(() -> shared.format(new C10.Own(true), args).got.toString());
    }

    @Override
    public String expected(int t) {
      String s = show(items[1].want());
      return show(items[t].want()) + "\n" + s + "\n" + s;
    }
  }

  /** Every item of the corpus with itself and with the one after it. */
  public static List<Supplier<Scenario>> corpus() {
    List<Supplier<Scenario>> l = new ArrayList<>();
    List<Corpus.Item> items = Corpus.items();
    for (int i = 0; i < items.size(); i++) {
      final Corpus.Item a = items.get(i);
      final Corpus.Item b = items.get((i + 1) % items.size());
      l.add(() -> new Items(a, a));
      l.add(() -> new Items(a, b));
    }
    return l;
  }

  /** Threads derive contexts from one context and build argument lists. */
  private static final class Contexts extends Calls {
    private FormatContext c;

    Contexts() {
      super("contexts and argument lists", 2);
    }

    @Override
    public void setup() {
      c = FormatContext.create("-").setWidth(7);
    }

    @Override
    public String run(int t) {
      FormatContext d = t == 0 ? c.addFlag(Flag.PLUS).setPrecision(2) : c.setWidth(3).addFlag(Flag.ZERO_PAD);
      Args a = Args.create().putInt(t).putInt(5).put("s" + t).putLong(127 + t).putChar((char) ('a' + t)).putNull();
      return d.toPatternString(Specifier.STRING) + c.toPatternString(Specifier.STRING) + a + a.values();
    }

    @Override
    public String expected(int t) {
      return (t == 0 ? "%-+7.2s%-7s[0, 5, s0, 127, a, null][0, 5, s0, 127, a, null]" : "%-03s%-7s[1, 5, s1, 128, b, null][1, 5, s1, 128, b, null]");
    }
  }

  /** An argument formats with the same formatter while it is being formatted. */
  private static final class Nested extends Calls {
    final int variant;
    private FastPrintf f;

    Nested(int variant) {
      super("nested " + VARIANT[variant], 2);
      this.variant = variant;
    }

    @Override
    public void setup() {
      f = variant("[%s|%d]", variant);
    }

    @Override
    public String run(int t) {
      Object inner =
          new Object() {
            @Override
            public String toString() {
              return f.format(Args.of("in" + t, t));
            }
          };
      return f.format(Args.of(inner, t + 10)) + f.format(Args.of(t, t));
    }

    @Override
    public String expected(int t) {
      return "[[in" + t + "|" + t + "]|" + (t + 10) + "][" + t + "|" + t + "]";
    }
  }

  /** Two threads use the same two objects in opposite order, the second from within the first. */
  private static final class Crossed extends Calls {
    final int kind;
    final int variant;
    private FastPrintf[] f;
    private Seq[] s;
    private Args[] a;
    private Appendable[] into;

    static final int KINDS = 6;

    Crossed(int kind, int variant) {
      super("crossed use " + kind + " " + VARIANT[variant], 2);
      this.kind = kind;
      this.variant = variant;
    }

    /** A sink that keeps nothing. */
    private static final class Nowhere implements Appendable {
      @Override
      public Appendable append(CharSequence q) {
        return this;
      }

      @Override
      public Appendable append(CharSequence q, int from, int to) {
        return this;
      }

      @Override
      public Appendable append(char c) {
        return this;
      }
    }

    private static Object calling(Supplier<String> c) {
      return new Object() {
        @Override
        public String toString() {
          return c.get();
        }
      };
    }

    @Override
    public void setup() {
      f = new FastPrintf[] {variant("[%s]", variant), variant("<%s>", variant)};
      s = new Seq[2];
      s[0] = Seq.lazy(b -> b.append(f[0].format("x")), 3);
      s[1] = Seq.lazy(b -> b.append(f[1].format("x")), 3);
      into = new Appendable[] {new Nowhere(), new Nowhere()};
      a = new Args[2];
      a[0] = Args.of(calling(() -> f[1].format(Args.of(a[1].values().size()))));
      a[1] = Args.of(calling(() -> f[0].format(Args.of(a[0].values().size()))));
    }

    @Override
    public String run(int t) {
      FastPrintf outer = f[t];
      FastPrintf inner = f[1 - t];
      switch (kind) {
        case 0: // formatters, by an argument
          return outer.format(calling(() -> inner.format("x")));
        case 1: // formatters, by a sink
          StringBuilder got = new StringBuilder();
          outer.format(
              new Appendable() {
                @Override
                public Appendable append(CharSequence q) {
                  got.append(q).append(inner.format("y"));
                  return this;
                }

                @Override
                public Appendable append(CharSequence q, int from, int to) {
                  got.append(q, from, to).append(inner.format("y"));
                  return this;
                }

                @Override
                public Appendable append(char c) {
                  got.append(c).append(inner.format("y"));
                  return this;
                }
              },
              Args.of("x"));
          return got.toString().replace(t == 0 ? "<y>" : "[y]", "");
        case 2: // a formatter and a sequence that needs it
          return t == 0 ? f[0].format(s[0]) : s[0].toString();
        case 3: // formatters, by sequences
          return outer.format(s[1 - t]);
        case 4: // formatters and lists
          return outer.format(a[t]);
        default: // sinks
          outer.format(
              into[t],
              Args.of(
                  calling(
                      () -> {
                        inner.format(into[1 - t], Args.of("y"));
                        return "x";
                      })));
          return "written";
      }
    }

    @Override
    public String expected(int t) {
      switch (kind) {
        case 5:
          return "written";
        case 0:
        case 3:
          return t == 0 ? "[<x>]" : "<[x]>";
        case 1:
          return t == 0 ? "[x]" : "<x>";
        case 2:
          return t == 0 ? "[[x]]" : "[x]";
        default:
          return t == 0 ? "[<1>]" : "<[1]>";
      }
    }
  }

  /** Long outputs beyond the retained capacity, then short ones. */
  private static final class Sizes extends Calls {
    private FastPrintf f;

    Sizes() {
      super("large then small outputs, cached", 2);
    }

    @Override
    public void setup() {
      f = FastPrintf.compile("%s").enableThreadLocalCache();
    }

    @Override
    public String run(int t) {
      String big = f.format(Args.of(Ref.repeat((char) ('A' + t), 70000)));
      return f.format(Args.of("small" + t)) + big.length() + big.charAt(0) + big.charAt(69999) + f.format(Args.of(t));
    }

    @Override
    public String expected(int t) {
      return "small" + t + "70000" + (char) ('A' + t) + (char) ('A' + t) + t;
    }
  }

  public static List<Supplier<Scenario>> all() {
    List<Supplier<Scenario>> l = new ArrayList<>();
    for (Object[] row : FORMATS) {
      for (int v = 0; v < 4; v++) {
        final int variant = v;
        l.add(() -> new SameFormatter(row, variant, 2, 1));
        if (v != 2) l.add(() -> new SameFormatter(row, variant, 2, 2));
        for (int list = 1; list <= 3; list++) {
          final int list0 = list;
          l.add(() -> new SharedArgs(row, variant, variant < 2, list0));
        }
      }
    }
    for (int k = 0; k < SharedSeq.KINDS; k++) {
      for (int a = 0; a < SharedSeq.USES; a++) {
        for (int b = a; b < SharedSeq.USES; b++) {
          final int kind = k;
          final int use0 = a;
          final int use1 = b;
          l.add(() -> new SharedSeq(kind, use0, use1));
        }
      }
    }
    for (int w = 0; w < 6; w++) {
      final int which = w;
      l.add(() -> new Derive(which, 2));
    }
    l.add(() -> new Compile("%d-%s", "%d-%s"));
    l.add(() -> new Compile("%5d|%-6s|%.1f", "%x|%S"));
    l.add(() -> new Compile("%d%", "%d ok"));
    l.add(() -> new Compile("%t{uuuu}|", "%t{MM}|"));
    l.add(() -> new Compile("%t{uuuu'x'}|", "%T{uuuu'x'}|"));
    l.add(() -> new Compile("%*d %% %S", "literal %+d and %#s"));
    l.add(Contexts::new);
    for (int v = 0; v < 4; v++) {
      final int variant = v;
      l.add(() -> new Nested(variant));
      for (int k = 0; k < Crossed.KINDS; k++) {
        final int kind = k;
        l.add(() -> new Crossed(kind, variant));
      }
    }
    l.add(Sizes::new);
    return l;
  }

  private static final String CONVERSIONS = "duxXofFeEgGaAsStTc";

  /** Two different values of each type, in all conversions that take them. */
  private static final Object[][] TYPES = {
    {1, 22222}, {-3, -44}, {5L, 7777777777L}, {-6L, Long.MIN_VALUE}, {(byte) 7, (byte) -8}, {(short) 9, (short) -1000}, {'a', 'b'}, {true, false}, {1.5, -2.25e100}, {0.1, 1e-300}, {1.5f, -3e30f}, {0.0, Double.NaN}, {Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY},
    {BigInteger.ONE, BigInteger.TEN.pow(30)}, {BigInteger.TEN.negate(), BigInteger.ONE.shiftLeft(64)}, {new BigDecimal("1.25"), new BigDecimal("-7.5E+40")}, {new BigDecimal("1E-50"), new BigDecimal("33")},
    {"one", "another"}, {"12", "-345"}, {new StringBuilder("x"), new StringBuilder("yy")}, {Seq.wrap("abc"), Seq.wrap("defg")}, {new Ref.Prim(1), new Ref.Prim(2)}, {new Ref.Prim(3L), new Ref.Prim(4L)}, {new Ref.Prim(2.5), new Ref.Prim(3.5)}, {new Ref.Prim('x'), new Ref.Prim('y')}, {new Ref.Prim(true), new Ref.Prim(false)},
    {new int[] {1, 2}, new int[] {3}}, {new char[] {'c'}, new char[] {'d', 'e'}}, {new byte[] {1, 2}, new byte[] {3}}, {new Object[] {"p", 1}, new Object[] {"q"}}, {java.util.Arrays.asList(1, 2), java.util.Arrays.asList("z")}, {null, "x"},
    {new java.util.Date(0), new java.util.Date(1700000000123L)}, {java.time.Instant.ofEpochSecond(5), java.time.Instant.ofEpochSecond(1700000000, 9)}, {java.time.LocalDate.of(2024, 2, 29), java.time.LocalDate.of(1999, 1, 1)}, {java.time.LocalDateTime.of(2024, 2, 29, 1, 2), java.time.LocalDateTime.of(1999, 1, 1, 3, 4)},
    {new java.util.concurrent.atomic.AtomicLong(3), new java.util.concurrent.atomic.AtomicLong(44)}, {new java.util.concurrent.atomic.AtomicInteger(3), new java.util.concurrent.atomic.AtomicInteger(44)}
  };

  public static List<Supplier<Scenario>> types() {
    List<Supplier<Scenario>> l = new ArrayList<>();
    for (Object[] pair : TYPES) {
      for (String lay : new String[] {"", "#012.3"}) {
        StringBuilder fmt = new StringBuilder();
        int n = 0;
        for (char c : CONVERSIONS.toCharArray()) {
          String d = "%" + lay + c;
          if (Ref.format(d, pair[0]).kind != Ref.Kind.OK || Ref.format(d, pair[1]).kind != Ref.Kind.OK) continue;
          fmt.append(d).append('|');
          n++;
        }
        Object[] row = {fmt.toString(), new Object[n], new Object[n], new Object[n]};
        for (int i = 0; i < n; i++) {
          ((Object[]) row[1])[i] = pair[0];
          ((Object[]) row[2])[i] = pair[1];
          ((Object[]) row[3])[i] = pair[i % 2];
        }
        if (n > 0) l.add(() -> new SameFormatter(row, lay.isEmpty() ? 0 : 1, 2, 1));
      }
    }
    return l;
  }

  /** Three threads. */
  public static List<Supplier<Scenario>> wide() {
    List<Supplier<Scenario>> l = new ArrayList<>();
    for (Object[] row : FORMATS) {
      for (int v = 0; v < 2; v++) {
        final int variant = v;
        l.add(() -> new SameFormatter(row, variant, 3, 1));
      }
    }
    for (int w = 0; w < 6; w++) {
      final int which = w;
      l.add(() -> new Derive(which, 3));
    }
    l.add(() -> new Compile("%d", "%5d|%-6s", "%x%s"));
    return l;
  }

  /** Programs run from a cold start, with freshly loaded classes. */
  public static List<Supplier<Scenario>> cold() {
    List<Supplier<Scenario>> l = new ArrayList<>();
    for (int i : new int[] {1, 3, 4, 7, 8, 10, 11, 14, 16, 18}) l.add(() -> new SameFormatter(FORMATS[i], 1, 2, 1));
    l.add(() -> new Compile("%d-%s", "%d-%s"));
    l.add(() -> new Compile("%5d|%-6s|%.1f", "%x|%S"));
    l.add(() -> new Compile("%t{uuuu}|%s", "%t{MM}|%s"));
    l.add(() -> new Derive(1, 2));
    l.add(Contexts::new);
    return l;
  }
}
