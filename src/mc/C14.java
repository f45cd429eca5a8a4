package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.util.ArrayList;
import java.util.List;

/** Results do not depend on history. */
final class C14 extends Check {

  private static final String[] FORMATS = {"%s|%d", "%*s%.2f%%", "%S-%x", "%-8.3s%t{uuuu}"};
  private static final Object LONG_TEXT = Ref.repeat('L', 70000);

  /** Argument lists per format: some succeed, some fail, some are huge. */
  private static final Object[][][] ARGS = {
    {{"a", 1}, {"", -7}, {LONG_TEXT, 2}, {"b", "no int"}, {"only one"}, {new C06.Own("own text of more than sixteen"), 123456789L}},
    {{3, "x", 1.5}, {-9, null, -0.005}, {65536, "wide", 1e20}, {70000, "x", 1.0}, {2, "x", "y"}, {0, "", 3}},
    {{"abc", 255}, {"ß", 0}, {LONG_TEXT, -1}, {"q", null}, {}, {new StringBuilder("sb"), (byte) -1}},
    {{"date", java.time.LocalDate.of(2024, 1, 2)}, {"", 0}, {LONG_TEXT, 4294967296L}, {"x", "y"}, {"x", -1L}, {12345, java.time.LocalDate.MIN}}
  };

  private static final int[] CAPACITY = {1, 65537};

  static final class World {
    final int fmt;
    final List<FastPrintf> fs = new ArrayList<>();
    final List<String> log = new ArrayList<>();
    final Args[] shared;

    World(int fmt) {
      this.fmt = fmt;
      fs.add(FastPrintf.compile(FORMATS[fmt]));
      shared = new Args[ARGS[fmt].length];
      for (int i = 0; i < shared.length; i++) shared[i] = Impl.args(ARGS[fmt][i]);
    }
  }

  private static final Ref.Out[][] WANT = new Ref.Out[FORMATS.length][];

  static {
    for (int i = 0; i < FORMATS.length; i++) {
      WANT[i] = new Ref.Out[ARGS[i].length];
      for (int k = 0; k < ARGS[i].length; k++) WANT[i][k] = Ref.format(FORMATS[i], ARGS[i][k]);
    }
  }

  private static Ref.Out call(FastPrintf f, Args a, int sink) {
    try {
      String s;
      switch (sink) {
        case 0:
          s = f.format(a);
          break;
        case 1:
          s = f.format(new StringBuilder(), a).toString();
          break;
        default:
          s = f.format(new C10.Own(false), a).got.toString();
      }
      return new Ref.Out(Ref.Kind.OK, s, null);
    } catch (Throwable t) {
      return Impl.formatOutcome(t, "");
    }
  }

  private static void compare(Explorer.Path p, World w, int f, int a, int sink) {
    Ref.Out got = call(w.fs.get(f), w.shared[a], sink);
    p.state(w.fmt * 1000003L + w.fs.size() * 8191L + f * 1021 + a * 31 + sink + got.hashCode());
    if (!Impl.agrees(WANT[w.fmt][a], got)) {
      p.fail("\"" + FORMATS[w.fmt] + "\" after " + w.log + ": formatter " + f + " with argument list " + a + " to sink " + sink + " gave " + got + ", model says " + WANT[w.fmt][a]);
    }
  }

  private static Ref.Out use(String fmt, int var, FastPrintf[] keep, Object arg) {
    try {
      keep[0] = C10.variant(FastPrintf.compile(fmt), var);
    } catch (Throwable t) {
      return Impl.compileOutcome(t);
    }
    return Impl.run(keep[0], arg, arg);
  }

  /** One operation of the history. */
  private void step(Explorer.Path p, World w) {
    int f = p.choose(w.fs.size());
    int op = p.choose(12);
    if (op < 8) {
      int a = op < 6 ? op : op - 6;
      int sink = op < 6 ? 0 : op == 6 ? 1 : 2;
      w.log.add("format(f" + f + ",a" + a + ",s" + sink + ")");
      compare(p, w, f, a, sink);
    } else if (op == 8) {
      w.log.add("f" + w.fs.size() + "=cache(f" + f + ")");
      w.fs.add(w.fs.get(f).enableThreadLocalCache());
    } else if (op < 11) {
      w.log.add("f" + w.fs.size() + "=capacity(f" + f + "," + CAPACITY[op - 9] + ")");
      w.fs.add(w.fs.get(f).setStringBuilderInitialCapacity(CAPACITY[op - 9]));
    } else {
      // an independent formatter of another format, cached, in between
      w.log.add("other");
      FastPrintf o = FastPrintf.compile("<%s>").enableThreadLocalCache();
      if (!o.format(Args.of("zz")).equals("<zz>") || !o.format(Args.of(1)).equals("<1>")) p.fail("after " + w.log + " another formatter is wrong");
    }
  }

  private void history(Explorer.Path p, World w, int depth) {
    for (int i = 0; i < depth; i++) step(p, w);
    // finally each formatter prints each argument list as ever
    for (int f = 0; f < w.fs.size(); f++) {
      compare(p, w, f, 0, 0);
      compare(p, w, f, 3, 0);
      compare(p, w, f, 1, 0);
      compare(p, w, f, 5, 1);
    }
    p.trace();
    p.sample(() -> FORMATS[w.fmt] + ": " + w.log);
  }

  /** An argument that can be put into four states. */
  private static void put(Object number, int v) {
    if (number instanceof java.util.concurrent.atomic.AtomicInteger) {
      ((java.util.concurrent.atomic.AtomicInteger) number).set(v);
    } else if (number instanceof java.util.concurrent.atomic.AtomicLong) {
      ((java.util.concurrent.atomic.AtomicLong) number).set(v);
    } else {
      ((java.util.concurrent.atomic.LongAdder) number).reset();
      ((java.util.concurrent.atomic.LongAdder) number).add(v);
    }
  }

  /** Constants that look different from time to time. */
  private enum Choice {
    FIRST,
    SECOND {
      @Override
      public String toString() {
        return "second " + text.get();
      }
    };

    static final ThreadLocal<String> text = ThreadLocal.withInitial(() -> "");

    @Override
    public String toString() {
      return "first " + text.get();
    }
  }

  /** Objects that are all equal. */
  private static final class Same {
    String text = "";

    @Override
    public boolean equals(Object o) {
      return o instanceof Same;
    }

    @Override
    public int hashCode() {
      return 1;
    }

    @Override
    public String toString() {
      return text;
    }
  }

  /** An exception whose message changes. */
  @SuppressWarnings("serial")
  private static final class Told extends RuntimeException {
    String text = "";

    @Override
    public String getMessage() {
      return text;
    }
  }

  /** A text that changes. */
  private static final class Changing implements CharSequence {
    String text = "";

    @Override
    public int length() {
      return text.length();
    }

    @Override
    public char charAt(int i) {
      return text.charAt(i);
    }

    @Override
    public CharSequence subSequence(int from, int to) {
      return text.substring(from, to);
    }

    @Override
    public String toString() {
      return text;
    }
  }

  private static final int MUTABLES = 19;

  private static final class Mutable {
    final int kind;
    final Object value;

    Mutable(int kind) {
      this.kind = kind;
      switch (kind) {
        case 0:
          value = new StringBuilder();
          break;
        case 1:
          value = new StringBuffer();
          break;
        case 2:
          value = new Object[3];
          break;
        case 3:
          value = new char[4];
          break;
        case 4:
          value = new java.util.concurrent.atomic.AtomicLong();
          break;
        case 5:
          value = new java.util.concurrent.atomic.AtomicInteger();
          break;
        case 6:
          value = new java.util.Date();
          break;
        case 7:
          value = java.util.Calendar.getInstance();
          break;
        case 8:
          value = new ArrayList<Object>();
          break;
        case 9:
          value = Choice.FIRST;
          break;
        case 10:
          value = Choice.SECOND;
          break;
        case 11:
          value = new Same();
          break;
        case 12:
          value = new Thread("t");
          break;
        case 13:
          value = new Told();
          break;
        case 14:
          value = new java.util.concurrent.atomic.AtomicReference<Object>();
          break;
        case 15:
          value = new java.util.AbstractMap.SimpleEntry<Object, Object>("k", "v");
          break;
        case 16:
          value = new Object[] {Choice.FIRST, new StringBuilder()};
          break;
        case 17:
          value = new Changing();
          break;
        default:
          value = new java.util.BitSet();
      }
    }

    @SuppressWarnings("unchecked")
    void set(int st) {
      String text = new String[] {"ab", "", "a longer text than sixteen", "xy"}[st];
      switch (kind) {
        case 0:
          ((StringBuilder) value).setLength(0);
          ((StringBuilder) value).append(text);
          break;
        case 1:
          ((StringBuffer) value).setLength(0);
          ((StringBuffer) value).append(text);
          break;
        case 2:
          for (int i = 0; i < 3; i++) ((Object[]) value)[i] = st == 1 ? null : st == 2 ? text : (Object) (i * st);
          break;
        case 3:
          for (int i = 0; i < 4; i++) ((char[]) value)[i] = (char) ('a' + st * 5 + i);
          break;
        case 4:
          ((java.util.concurrent.atomic.AtomicLong) value).set(new long[] {0, -1, 5000000000L, 7}[st]);
          break;
        case 5:
          ((java.util.concurrent.atomic.AtomicInteger) value).set(new int[] {0, -1, 1234567, 7}[st]);
          break;
        case 6:
          ((java.util.Date) value).setTime(new long[] {0, 1, 1700000000000L, 86400000}[st]);
          break;
        case 7:
          ((java.util.Calendar) value).setTimeInMillis(new long[] {0, 1, 1700000000000L, 86400000}[st]);
          break;
        case 8:
          {
            List<Object> l = (List<Object>) value;
            l.clear();
            for (int i = 0; i < st; i++) l.add(text);
            break;
          }
        case 9:
        case 10:
          Choice.text.set(text);
          break;
        case 11:
          ((Same) value).text = text;
          break;
        case 12:
          ((Thread) value).setName(text);
          break;
        case 13:
          ((Told) value).text = text;
          break;
        case 14:
          ((java.util.concurrent.atomic.AtomicReference<Object>) value).set(text);
          break;
        case 15:
          ((java.util.Map.Entry<Object, Object>) value).setValue(text);
          break;
        case 16:
          Choice.text.set(text);
          ((StringBuilder) ((Object[]) value)[1]).append(st);
          break;
        case 17:
          ((Changing) value).text = text;
          break;
        default:
          ((java.util.BitSet) value).set(st);
      }
    }
  }

  /** Formats of which many have the same String.hashCode(), or contain parts that have. */
  private static final String[] HASHES = {
    "Aa%d", "BB%d", "%sAaAa", "%sBBBB", "%sAaBB", "%sBBAa", "%5d", "%6E", "%5x", "%6Y", "%-5d", "%-6E", "%s%5d", "%s%6E", "%t{'Aa'}", "%t{'BB'}", "%t{'Aa'uuuu}|%s", "%t{'BB'uuuu}|%s", "%T{uuuuMMdd}", "%t{uuuuMMdd}", "%5s", "%6T", "%5c", "%6D", "%.5f", "%.6G", "%.5g", "%.6H", "%1%", "%2\006", "%4s", "%5T", "", "\0", "\0\0"
  };

  private static final String[] MANY = {"%d", "%d", "%d", "%d", "%d", "%s", "%.1f", "%.1f"};

  private static Object[] twins() {
    java.math.BigDecimal big = new java.math.BigDecimal("1.00");
    java.sql.Timestamp ts = new java.sql.Timestamp(1000);
    ts.setNanos(5);
    java.util.Calendar cal = java.util.Calendar.getInstance(java.util.TimeZone.getTimeZone("UTC"));
    cal.setTimeInMillis(1000);
    return new Object[] {
      0.0, -0.0, 0.0f, -0.0f, 0, 0L, (byte) 0, (short) 0, '\0', false, "0", "-0", java.math.BigDecimal.ZERO, new java.math.BigDecimal("0.0"), new java.math.BigDecimal("0E+5"), java.math.BigInteger.ZERO,
      1, 1L, 1.0, 1.0f, true, '\1', "1", "1.0", "+1", java.math.BigDecimal.ONE, new java.math.BigDecimal("1.0"), big, java.math.BigInteger.ONE, 4294967296L, new Ref.Prim(1), new Ref.Prim(1L), new Ref.Prim(1.0), new Ref.Prim(true),
      Double.NaN, Float.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, "NaN", Double.MIN_VALUE, Double.longBitsToDouble(1L << 32 | 1), Double.longBitsToDouble(0),
      255, (byte) -1, (short) -1, -1, -1L, 0xFFFFFFFFL, 65535, '\uffff', java.math.BigInteger.valueOf(-1), java.math.BigInteger.ONE.shiftLeft(32).subtract(java.math.BigInteger.ONE),
      "Aa", "BB", "AaBB", "BBAa", new String("Aa"), new StringBuilder("Aa"), new StringBuilder("BB"), new StringBuffer("Aa"), new char[] {'A', 'a'}, new char[] {'B', 'B'}, new Object[] {"Aa"}, new Object[] {"BB"}, new Object[] {1}, new Object[] {1L}, java.util.Arrays.asList(1), java.util.Arrays.asList("Aa"), java.util.Arrays.asList("BB"), new byte[] {1}, new byte[] {1, 0},
      'A', 65, "A", null, "null", "", new Object[0], new char[0],
      new java.util.Date(1000), ts, new java.sql.Timestamp(1000), cal, java.time.Instant.ofEpochSecond(1), java.time.Instant.ofEpochSecond(1, 5), java.time.LocalDate.of(1970, 1, 1), java.time.LocalDate.of(1970, 1, 1).atStartOfDay(), java.time.Instant.ofEpochSecond(1).atOffset(java.time.ZoneOffset.UTC), java.time.Instant.ofEpochSecond(1).atOffset(java.time.ZoneOffset.ofHours(1)), java.time.Instant.ofEpochSecond(1).atZone(java.time.ZoneId.of("UTC")), java.time.Instant.ofEpochSecond(1).atZone(java.time.ZoneOffset.UTC), 1000, 1000L
    };
  }

  @Override
  void define() {
    final int depth = thorough ? 5 : 4;
    sequentialPhase(
        "unused memory collected between calls",
        "all formatter variants x the corpus and its failing items, unreferenced and softly referenced objects collected between two rounds of calls",
        p -> {
          int variant = p.choose(C10.VARIANTS);
          List<Corpus.Item> all = new ArrayList<>(Corpus.items());
          all.addAll(Corpus.failing());
          List<FastPrintf> fs = new ArrayList<>();
          List<Args> as = new ArrayList<>();
          for (Corpus.Item i : all) {
            fs.add(C10.variant(FastPrintf.compile(i.fmt), variant));
            as.add(Impl.args(i.args));
          }
          for (int round = 0; round < 3; round++) {
            for (int k = 0; k < all.size(); k++) {
              Ref.Out got = call(fs.get(k), as.get(k), round);
              Ref.Out want = all.get(k).want();
              p.trace();
              p.state(variant * 10000L + k, got.hashCode());
              if (!Impl.agrees(want, got)) p.fail(all.get(k) + " in round " + (round + 1) + " gave " + got + ", model says " + want);
            }
            System.gc();
          }
        });
    phase(
        "histories",
        "all histories of " + depth + " operations over a growing family of formatters: 6 argument lists (2 fail, 1 huge), 3 sinks, cache, 2 capacities, another formatter",
        p -> {
          // first operations chosen together to spread the work
          int root = p.choose(FORMATS.length * 4);
          World w = new World(root % FORMATS.length);
          int start = root / FORMATS.length;
          if (start == 1) w.fs.add(w.fs.get(0).enableThreadLocalCache());
          if (start == 2) w.fs.set(0, w.fs.get(0).enableThreadLocalCache());
          if (start == 3) w.fs.set(0, w.fs.get(0).enableThreadLocalCache().setStringBuilderInitialCapacity(70000));
          w.log.add("start" + start);
          history(p, w, start == 1 ? depth - 1 : thorough ? depth - 1 : depth);
        });
    phase(
        "corpus pairs",
        "every corpus or failing format on a cached formatter, then every argument list variant again: A, B, A on one formatter per format",
        p -> {
          List<Corpus.Item> items = Corpus.items();
          Corpus.Item it = p.pick(items);
          Corpus.Item other = p.pick(items);
          int var = p.pick(new int[] {0, 1, 4, 6});
          FastPrintf f = C10.variant(FastPrintf.compile(it.fmt), var);
          FastPrintf g = C10.variant(FastPrintf.compile(other.fmt), var);
          Ref.Out want = it.want();
          Ref.Out first = Impl.run(f, it.args);
          Ref.Out mid = Impl.run(g, other.args);
          Ref.Out cross = Impl.run(f, other.args);
          Ref.Out second = Impl.run(f, it.args);
          p.trace();
          p.state(it.fmt + other.fmt, second);
          if (!Impl.agrees(want, first) || !Impl.agrees(want, second)) p.fail(it + " gave " + first + " and after " + other + " " + second + ", model says " + want);
          if (!Impl.agrees(other.want(), mid)) p.fail(other + " after " + it + " gave " + mid);
          Ref.Out cw = Ref.format(it.fmt, other.args);
          if (!Impl.agrees(cw, cross)) p.fail(Show.call(it.fmt, other.args) + " after " + it + " gave " + cross + ", model says " + cw);
        });
    phase(
        "changing arguments",
        "one argument list whose argument changes between calls: " + MUTABLES + " mutable kinds x formats x variants x all sequences of 4 states",
        p -> {
          int kind = p.choose(MUTABLES);
          String[] fmts = kind < 2 ? new String[] {"%s", "%9s|", "%-9S|", "%.2s"} : kind < 4 ? new String[] {"%s", "%15s|", "%S", "%-20.5s|"} : kind < 6 ? new String[] {"%d", "%s", "%08x", "%.2f"} : kind < 8 ? new String[] {"%d", "%t", "%T{uuuu-MM-dd}", "%.1f"} : new String[] {"%s", "%-9.4S|", "%5s", "%12s"};
          String fmt = p.pick(fmts);
          FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.pick(new int[] {0, 1}));
          Mutable m = new Mutable(kind);
          Args a = Args.create().put(m.value);
          StringBuilder log = new StringBuilder(fmt + " kind " + kind);
          for (int i = 0; i < 4; i++) {
            int st = p.choose(4);
            m.set(st);
            log.append(" state ").append(st);
            int sink = p.choose(2) * 2;
            Ref.Out want = Ref.format(fmt, m.value);
            Ref.Out got = call(f, a, sink);
            if (!Impl.agrees(want, got)) p.fail(log + " sink " + sink + " gave " + got + ", model says " + want);
            p.state(log.toString(), got);
          }
          p.trace();
          p.sample(log::toString);
        });
    phase(
        "changing stars",
        "one argument list of numbers that change between calls, as star width, star precision and value: 7 formats x 3 kinds of number x variants x all sequences of 3 of 5 states for one of the places",
        p -> {
          String fmt = p.pick(new String[] {"%*d|", "%.*f|", "%*.*f|", "%-*.*x|", "%0*d|%*d|", "%*s|%.*s", "%*.*e"});
          int stars = fmt.length() - fmt.replace("*", "").length();
          int n = stars + fmt.length() - fmt.replace("%", "").length();
          int kind = p.choose(3);
          FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.pick(new int[] {0, 1}));
          Object[] v = new Object[n];
          Args a = Args.create();
          for (int i = 0; i < n; i++) {
            v[i] = kind == 0 ? new java.util.concurrent.atomic.AtomicInteger(3 + i) : kind == 1 ? new java.util.concurrent.atomic.AtomicLong(3 + i) : new java.util.concurrent.atomic.LongAdder();
            put(v[i], 3 + i);
            a.put(v[i]);
          }
          int place = p.choose(n);
          StringBuilder log = new StringBuilder(fmt + " kind " + kind + " place " + place);
          for (int i = 0; i < 3; i++) {
            int st = p.pick(new int[] {0, 5, -6, 12, 70000});
            put(v[place], st);
            log.append(" value ").append(st);
            int sink = p.choose(2) * 2;
            Ref.Out want = Ref.format(fmt, v);
            Ref.Out got = call(f, a, sink);
            if (!Impl.agrees(want, got)) p.fail(log + " sink " + sink + " gave " + got + ", model says " + want);
            p.state(log.toString(), got);
          }
          p.trace();
          p.sample(log::toString);
        });
    final Object[] twins = twins();
    phase(
        "confusable values",
        "A, B, A on one formatter for all ordered pairs of " + twins.length + " values that are equal, look equal or share a hash code in some respect x 21 conversions x 3 layouts",
        p -> {
          int ia = p.choose(twins.length);
          Object a = twins[ia];
          Object b = twins[p.choose(twins.length)];
          char conv = "diuoxXfFeEgGaAsSctTpn".charAt(p.choose(21));
          String fmt = "%" + p.pick(new String[] {"", "+9.3", "-012"}) + conv;
          FastPrintf f = FastPrintf.compile(fmt);
          if (p.flip()) f = f.enableThreadLocalCache();
          Ref.Out wa = Ref.format(fmt, a);
          Ref.Out wb = Ref.format(fmt, b);
          Ref.Out[] got = {Impl.run(f, a), Impl.run(f, b), Impl.run(f, a)};
          p.trace();
          p.state(fmt + ia, got[1]);
          if (!Impl.agrees(wa, got[0])) p.fail(Show.call(fmt, a) + " gave " + got[0] + ", model says " + wa);
          if (!Impl.agrees(wb, got[1])) p.fail(Show.call(fmt, b) + " after " + Show.arg(a) + " gave " + got[1] + ", model says " + wb);
          if (!Impl.agrees(wa, got[2])) p.fail(Show.call(fmt, a) + " after " + Show.arg(b) + " gave " + got[2] + ", model says " + wa);
        });
    final List<String> directives = new ArrayList<>();
    for (String layout : new String[] {"", ".3", ".20", "#.20", "+25.40", "-012.1", "030"}) {
      for (char c : "dxfegaGsStc".toCharArray()) directives.add("%" + layout + c);
    }
    final Object[] reused = {
      12.5, -12.5, 0.1, 1e-7, 1e22, 123456789.0, 0.5f, 42, -42, 65, 1000000007L, (byte) 66, 'k', true, "7", "12.5", "text", new StringBuilder("8"), new java.math.BigDecimal("12.50"), new java.math.BigDecimal("-1e-9"), new java.math.BigInteger("123456789012345678901"),
      new Ref.Prim(12.5), new Ref.Prim(42), java.time.LocalDate.of(2024, 1, 2), java.time.Instant.EPOCH, new java.util.Date(5000), new char[] {'a', 'b'}, new Object[] {1, "x"}, io.fastprintf.seq.Seq.wrap("atomic").append(io.fastprintf.seq.Seq.wrap("parts")), null
    };
    phase(
        "one value, two directives",
        "all ordered pairs of " + directives.size() + " directives one after the other on one of " + reused.length + " arguments, in one list or in two, then the first again",
        p -> {
          Object v = p.pick(reused);
          String a = p.pick(directives);
          String b = p.pick(directives);
          boolean one = p.flip();
          FastPrintf fa = FastPrintf.compile(a);
          FastPrintf fb = FastPrintf.compile(b);
          Args first = Impl.args(new Object[] {v});
          Args second = one ? first : Impl.args(new Object[] {v});
          Ref.Out[] got = {call(fa, first, 0), call(fb, second, 0), call(fa, first, 0)};
          Ref.Out wa = Ref.format(a, v);
          Ref.Out wb = Ref.format(b, v);
          p.trace();
          p.state(a + b, got[1]);
          if (!Impl.agrees(wa, got[0])) p.fail(Show.call(a, v) + " gave " + got[0] + ", model says " + wa);
          if (!Impl.agrees(wb, got[1])) p.fail(Show.call(b, v) + " after " + a + " gave " + got[1] + ", model says " + wb);
          if (!Impl.agrees(wa, got[2])) p.fail(Show.call(a, v) + " after " + b + " gave " + got[2] + ", model says " + wa);
        });
    phase(
        "formats with equal hash codes",
        "all ordered pairs of formats (texts, directives and date patterns) out of " + HASHES.length + " with colliding hash codes: compile and use A, compile and use B, use A, compile and use A",
        p -> {
          String a = p.pick(HASHES);
          String b = p.pick(HASHES);
          int var = p.pick(new int[] {0, 1});
          Object arg = a.contains("t{") || b.contains("t{") ? java.time.LocalDate.of(2024, 1, 2) : (Object) 7;
          FastPrintf[] fa = new FastPrintf[1];
          Ref.Out g0 = use(a, var, fa, arg);
          Ref.Out g1 = use(b, var, new FastPrintf[1], arg);
          Ref.Out g2 = fa[0] == null ? g0 : Impl.run(fa[0], arg, arg);
          Ref.Out g3 = use(a, var, fa, arg);
          Ref.Out wa = Ref.format(a, arg, arg);
          Ref.Out wb = Ref.format(b, arg, arg);
          p.trace();
          p.state(a + b, g1);
          if (!Impl.agrees(wa, g0) || !Impl.agrees(wa, g2) || !Impl.agrees(wa, g3)) p.fail("\"" + a + "\" gave " + g0 + ", after compiling \"" + b + "\" " + g2 + " and " + g3 + ", model says " + wa);
          if (!Impl.agrees(wb, g1)) p.fail("\"" + b + "\" after \"" + a + "\" gave " + g1 + ", model says " + wb);
        });
    phase(
        "many formatters and arguments",
        "n distinct formats compiled, all used, the first ones used and compiled again; n distinct arguments formatted and the first ones again: n = 2^k-1, 2^k, 2^k+1, k <= " + (thorough ? 16 : 13) + " x 8 kinds",
        p -> {
          int kind = p.choose(8);
          int n = (1 << p.choose(thorough ? 17 : 14)) + p.choose(3) - 1;
          List<FastPrintf> fs = new ArrayList<>();
          FastPrintf one = FastPrintf.compile(MANY[kind]).enableThreadLocalCache();
          for (int round = 0; round < 2; round++) {
            for (int i = 0; i < (round == 0 ? n : Math.min(n, 70)); i++) {
              FastPrintf f;
              Object arg;
              String want;
              if (kind < 4) {
                String fmt = new String[] {"lit" + i + ":%d", "%" + (i % 60000 + 1) + "d" + i, "%s" + i + "%%", "%t{'" + i + "'}"}[kind];
                f = FastPrintf.compile(fmt);
                arg = kind == 3 ? java.time.LocalDate.of(2024, 1, 2) : (Object) 5;
                want = new String[] {"lit" + i + ":5", null, "5" + i + "%", "" + i}[kind];
                if (kind == 1) want = Ref.repeat(' ', i % 60000) + "5" + i;
                fs.add(f);
              } else {
                f = one;
                arg = kind == 4 ? (Object) i : kind == 5 ? (Object) ("text" + i) : kind == 6 ? (Object) (i + 0.5) : java.math.BigDecimal.valueOf(i, 1);
                want = kind == 4 ? "" + i : kind == 5 ? "text" + i : kind == 6 ? i + ".5" : i / 10 + "." + i % 10;
              }
              String got = f.format(Args.of(arg));
              if (!got.equals(want)) p.fail("kind " + kind + " number " + i + " of " + n + " in round " + round + " gave " + Show.text(got) + " instead of " + Show.text(want));
            }
          }
          for (int i = 0; i < Math.min(70, fs.size()); i++) {
            String got = fs.get(i).format(Args.of(kind == 3 ? java.time.LocalDate.of(2024, 1, 2) : (Object) 5));
            String want = kind == 0 ? "lit" + i + ":5" : kind == 1 ? Ref.repeat(' ', i % 60000) + "5" + i : kind == 2 ? "5" + i + "%" : "" + i;
            if (i < n && !got.equals(want)) p.fail("formatter " + i + " of " + n + " kept gave " + Show.text(got));
          }
          p.trace();
          p.state(kind, n);
        });
    phase(
        "many calls",
        "1,050,000 calls (70,000 of the costlier ones) on one formatter, the result read every time, x 6 formats x 3 variants x {to a String, to a builder, every other call fails}",
        p -> {
          String fmt = p.pick(new String[] {"%d", "%5s|%-3d", "%.3f", "%#x%%", "%S", "%t{HH:mm}"});
          FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(3));
          int how = p.choose(3);
          Args good = fmt.startsWith("%t") ? Args.of(java.time.LocalTime.of(3, 4)) : fmt.equals("%.3f") ? Args.of(1.25) : Args.of(17, 4);
          String want = null;
          Args bad = Args.of(new Object() {
            @Override
            public String toString() {
              throw new IllegalStateException("no text");
            }
          });
          int calls = fmt.equals("%.3f") || fmt.startsWith("%t") || how == 2 ? 70000 : 1050000;
          for (int i = 0; i < calls; i++) {
            if (how == 2 && (i & 1) == 1) {
              try {
                f.format(bad);
                if (fmt.indexOf('S') >= 0 || fmt.indexOf('s') >= 0) p.fail("no failure in call " + i);
              } catch (RuntimeException e) {
                // as expected: refused, or the argument's own failure
              }
              continue;
            }
            String got = how == 1 ? f.format(new StringBuilder(), good).toString() : f.format(good);
            if (want == null) want = got;
            else if (!got.equals(want)) p.fail("call " + i + " of \"" + fmt + "\" gave " + Show.text(got) + ", the first gave " + Show.text(want));
          }
          p.trace();
          p.state(fmt + how, want);
        });
    phase(
        "size sequences",
        "all sequences of 4 output sizes out of 10 around the retained capacity on one cached formatter x 4 variants x failing calls in between",
        p -> {
          int[] sizes = {0, 1, 15, 16, 17, 100, 40000, 65535, 65536, 70000};
          int root = p.choose(40);
          FastPrintf f = C10.variant(FastPrintf.compile("%s"), new int[] {1, 4, 6, 0}[root % 4]);
          int n = p.choose(2) + 3;
          for (int i = 0; i < n; i++) {
            int size = sizes[i == 0 ? root / 4 : p.choose(10)];
            String s = Ref.repeat((char) ('a' + i), size);
            if (i == 1) {
              try {
                f.format(Args.create());
                p.fail("missing argument accepted");
              } catch (io.fastprintf.PrintfException e) {
                // as it should
              }
            }
            String got = f.format(Args.of(s));
            if (!got.equals(s)) p.fail("output " + i + " of size " + size + " gave " + Show.text(got));
          }
          p.trace();
          p.state(root, n);
        });
  }
}
