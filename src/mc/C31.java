package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.InputStream;
import java.io.PrintStream;
import java.io.StringReader;
import java.lang.reflect.Method;
import java.nio.ByteBuffer;
import java.nio.CharBuffer;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.Calendar;
import java.util.Date;
import java.util.HashMap;
import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Properties;
import java.util.TimeZone;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.ForkJoinPool;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicLong;
import java.util.function.Function;
import java.util.function.Supplier;

/** Calls have no side effects and do not depend on the calling thread. */
final class C31 extends Check {

  // ---- threads ----

  private static final String[] THREADS = {
    "new thread", "daemon", "highest priority", "lowest priority", "interrupted", "no context class loader", "thread of its own group", "fork-join worker",
    "pool thread used before", "virtual", "interrupted virtual", "little stack", "own class of thread", "nameless", "calling thread"
  };

  private static final class OwnThread extends Thread {
    OwnThread(Runnable r) {
      super(r);
    }

    @Override
    public long getId() {
      return -1;
    }

    @Override
    public String toString() {
      return null;
    }

    @Override
    public ClassLoader getContextClassLoader() {
      return null;
    }
  }

  /** A virtual thread, or null if the runtime has none. */
  static Thread virtual(Runnable r) {
    try {
      Object builder = Thread.class.getMethod("ofVirtual").invoke(null);
      Method m = Class.forName("java.lang.Thread$Builder").getMethod("unstarted", Runnable.class);
      return (Thread) m.invoke(builder, r);
    } catch (ReflectiveOperationException e) {
      return null;
    }
  }

  private static void on(int kind, Runnable r) throws Exception {
    Thread t;
    switch (kind) {
      case 1:
        t = new Thread(r);
        t.setDaemon(true);
        break;
      case 2:
        t = new Thread(r);
        t.setPriority(Thread.MAX_PRIORITY);
        break;
      case 3:
        t = new Thread(r);
        t.setPriority(Thread.MIN_PRIORITY);
        break;
      case 4:
        t = new Thread(interrupted(r));
        break;
      case 5:
        t = new Thread(r);
        t.setContextClassLoader(null);
        break;
      case 6:
        t = new Thread(new ThreadGroup("own"), r);
        break;
      case 7:
        ForkJoinPool pool = new ForkJoinPool(1);
        pool.submit(r).get(100, TimeUnit.SECONDS);
        pool.shutdown();
        return;
      case 8:
        ExecutorService one = Executors.newSingleThreadExecutor();
        one.submit(() -> FastPrintf.compile("%s%d").enableThreadLocalCache().format("x", 1)).get(100, TimeUnit.SECONDS);
        one.submit(r).get(100, TimeUnit.SECONDS);
        one.shutdown();
        return;
      case 9:
      case 10:
        t = virtual(kind == 9 ? r : interrupted(r));
        if (t == null) return;
        break;
      case 11:
        t = new Thread(null, r, "little", 256 << 10);
        break;
      case 12:
        t = new OwnThread(r);
        break;
      case 13:
        t = new Thread(r, "");
        break;
      case 14:
        r.run();
        return;
      default:
        t = new Thread(r);
    }
    t.start();
    t.join(100000);
    if (t.isAlive()) throw new IllegalStateException("the thread does not end");
  }

  private static Runnable interrupted(Runnable r) {
    return () -> {
      Thread.currentThread().interrupt();
      r.run();
    };
  }

  private static String threadState() {
    Thread t = Thread.currentThread();
    return t.isInterrupted() + " " + t.getName() + " " + t.getPriority() + " " + t.getContextClassLoader() + " " + t.isDaemon();
  }

  // ---- arguments that can be changed ----

  private static final class Kind {
    final String name;
    final Supplier<Object> make;
    final Function<Object, String> look;

    @SuppressWarnings("unchecked")
    <T> Kind(String name, Supplier<T> make, Function<T, String> look) {
      this.name = name;
      this.make = make::get;
      this.look = o -> look.apply((T) o);
    }
  }

  private static final class OwnNumber extends Number {
    long value = 7;
    int changes;

    @Override
    public int intValue() {
      return (int) value;
    }

    @Override
    public long longValue() {
      return value;
    }

    @Override
    public float floatValue() {
      return value;
    }

    @Override
    public double doubleValue() {
      return value;
    }

    @Override
    public String toString() {
      return "7";
    }
  }

  /** A list whose changing methods are noticed. */
  private static final class Watched extends java.util.AbstractList<Object> {
    int changes;

    @Override
    public Object get(int i) {
      return i;
    }

    @Override
    public int size() {
      return 3;
    }

    @Override
    public Object set(int i, Object o) {
      changes++;
      return o;
    }

    @Override
    public void add(int i, Object o) {
      changes++;
    }

    @Override
    public Object remove(int i) {
      changes++;
      return null;
    }

    @Override
    public void clear() {
      changes++;
    }
  }

  private static int left(Iterator<?> i) {
    int n = 0;
    while (i.hasNext()) {
      i.next();
      n++;
    }
    return n;
  }

  private static List<Kind> kinds() {
    List<Kind> l = new ArrayList<>();
    for (String s : new String[] {"", "7", "text of more than sixteen chars", "ab😀c"}) {
      l.add(new Kind("StringBuilder " + s, () -> new StringBuilder(s), b -> b + " " + b.capacity()));
      l.add(new Kind("StringBuffer " + s, () -> new StringBuffer(s), b -> b + " " + b.capacity()));
      l.add(new Kind("CharBuffer " + s, () -> CharBuffer.wrap(("#" + s + "#").toCharArray(), 1, s.length()), b -> b + " " + b.position() + " " + b.limit() + " " + new String((char[]) b.array())));
      l.add(new Kind("char[] " + s, s::toCharArray, Arrays::toString));
      for (int kind = 0; kind < 3; kind++) {
        final int k = kind;
        char[][] kept = new char[1][];
        l.add(
            new Kind(
                "sequence " + k + " over a char array " + s,
                () -> {
                  char[] c = ("<" + s + "abc>").toCharArray();
                  Seq q = Seq.forArray(c, 1, c.length - 2);
                  Seq made = k == 0 ? q : k == 1 ? q.append(Seq.ch('x')).prepend(q) : q.subSequence(0, q.length() - 1);
                  return new Object[] {made, c};
                },
                o -> Arrays.toString((char[]) ((Object[]) o)[1]) + ((Object[]) o)[0]));
      }
    }
    l.add(new Kind("int[]", () -> new int[] {3, 1, 2}, Arrays::toString));
    l.add(new Kind("long[]", () -> new long[] {3, 1, 2}, Arrays::toString));
    l.add(new Kind("short[]", () -> new short[] {3, 1, 2}, Arrays::toString));
    l.add(new Kind("byte[]", () -> new byte[] {3, -1, 2, 9}, Arrays::toString));
    l.add(new Kind("boolean[]", () -> new boolean[] {true, false}, Arrays::toString));
    l.add(new Kind("float[]", () -> new float[] {3, -1, 2}, Arrays::toString));
    l.add(new Kind("double[]", () -> new double[] {3, -0.0, Double.NaN}, Arrays::toString));
    l.add(new Kind("String[]", () -> new String[] {"z", null, "a"}, Arrays::toString));
    l.add(new Kind("Object[]", () -> new Object[] {"z", null, new int[] {2, 1}, new Object[] {'q'}}, Arrays::deepToString));
    l.add(new Kind("ArrayList", () -> new ArrayList<Object>(Arrays.asList(3, "x", null)), Object::toString));
    l.add(new Kind("list of its own", Watched::new, w -> w.changes + ""));
    l.add(new Kind("ArrayDeque", () -> new ArrayDeque<Object>(Arrays.asList(3, "x")), Object::toString));
    l.add(new Kind("LinkedHashMap by access", () -> {
      Map<Object, Object> m = new LinkedHashMap<>(4, 0.75f, true);
      m.put(3, "c");
      m.put(1, "a");
      return m;
    }, Object::toString));
    l.add(new Kind("Iterator", () -> Arrays.asList(1, 2, 3).iterator(), i -> left(i) + " left"));
    l.add(new Kind("StringReader", () -> new StringReader("unread"), r -> {
      try {
        return r.read() + "";
      } catch (java.io.IOException e) {
        return e.toString();
      }
    }));
    l.add(new Kind("InputStream", () -> new ByteArrayInputStream(new byte[5]), s -> s.available() + ""));
    l.add(new Kind("ByteBuffer", () -> ByteBuffer.wrap(new byte[] {1, 2, 3}), b -> b.position() + " " + b.limit() + Arrays.toString((byte[]) b.array())));
    l.add(new Kind("BitSet", () -> BitSet.valueOf(new long[] {77}), Object::toString));
    l.add(new Kind("AtomicLong", () -> new AtomicLong(7), Object::toString));
    l.add(new Kind("Number of its own", OwnNumber::new, n -> n.value + " " + n.changes));
    l.add(new Kind("Date", () -> new Date(1700000000123L), d -> d.getTime() + ""));
    l.add(new Kind("Timestamp", () -> {
      java.sql.Timestamp t = new java.sql.Timestamp(1700000000123L);
      t.setNanos(123456789);
      return t;
    }, t -> t.getTime() + " " + t.getNanos()));
    l.add(new Kind("sql Date", () -> new java.sql.Date(1700000000123L), d -> d.getTime() + ""));
    l.add(new Kind("Calendar", () -> {
      Calendar c = new java.util.GregorianCalendar(TimeZone.getTimeZone("GMT+3"), Locale.FRANCE);
      c.clear();
      c.set(2023, Calendar.MAY, 4, 5, 6, 7);
      return c;
    }, c -> c.getTimeInMillis() + " " + c.getTimeZone().getID() + " " + c.isLenient() + " " + c.getFirstDayOfWeek()));
    l.add(new Kind("Properties", Properties::new, Object::toString));
    l.add(new Kind("Throwable", () -> new Exception("message"), e -> e + " " + e.getStackTrace().length + " " + e.getSuppressed().length));
    return l;
  }

  private static Object argument(Object made) {
    // sequences come with the array below them
    return made instanceof Object[] && ((Object[]) made).length == 2 && ((Object[]) made)[0] instanceof Seq ? ((Object[]) made)[0] : made;
  }

  private static final String CONVERSIONS = "duxXofFeEgGaAsStTcpn";
  private static final String[] LAYOUTS = {"", "-20", "020", ".2", "#+20.4", "2.40"};

  private static String attempt(Supplier<String> s) {
    try {
      return s.get();
    } catch (RuntimeException e) {
      return e.getClass().getName();
    }
  }

  // ---- what the process can see ----

  private static final String[] PROPERTIES = {
    "line.separator", "file.separator", "path.separator", "file.encoding", "user.language", "user.country", "user.region", "user.timezone", "os.name", "os.arch", "java.version", "java.specification.version", "java.vendor", "user.name"
  };
  private static final String[] VALUES = {null, "", "tr", "1.4", "|\n"};

  private static String process() {
    return Locale.getDefault() + " " + Locale.getDefault(Locale.Category.FORMAT) + " " + Locale.getDefault(Locale.Category.DISPLAY) + " " + TimeZone.getDefault().getID() + " " + Thread.getDefaultUncaughtExceptionHandler() + " "
        + new HashMap<>(System.getProperties()).hashCode() + " " + ForkJoinPool.commonPool().getParallelism();
  }

  private static List<Corpus.Item> corpus() {
    List<Corpus.Item> all = new ArrayList<>(Corpus.items());
    all.addAll(Corpus.failing());
    for (String fmt : new String[] {"%d", "a%x", "%20f", "%.3a", "%t", "%T{HH}", "%*d", "%.*s", "%c"}) {
      all.add(new Corpus.Item(fmt, new Mute(), 1));
    }
    for (String fmt : new String[] {"%q", "%", "%5", "%.", "%t{", "%t{}", "%t{b}", "%--d", "%70000d", "%.70000d", "%99999999999d"}) all.add(new Corpus.Item(fmt, 1));
    return all;
  }

  /** Refused by every conversion but %s and %p, and cannot say what it is. */
  private static final class Mute {
    @Override
    public String toString() {
      throw new IllegalStateException("no text");
    }

    @Override
    public int hashCode() {
      throw new IllegalStateException("no hash");
    }

    @Override
    public boolean equals(Object o) {
      throw new IllegalStateException("no equality");
    }
  }

  /** Compiled and formatted, to a sink of some kind. */
  private static Ref.Out run(Corpus.Item i, int variant, int sink) {
    FastPrintf f;
    try {
      f = C10.variant(FastPrintf.compile(i.fmt), variant);
    } catch (Throwable t) {
      return Impl.compileOutcome(t);
    }
    try {
      Args a = Impl.args(i.args);
      String text;
      switch (sink) {
        case 0:
          text = f.format(a);
          break;
        case 1:
          text = f.format(new StringBuilder(), a).toString();
          break;
        case 2:
          text = f.format(new C10.Own(false), a).got.toString();
          break;
        default:
          text = f.format(new java.io.StringWriter(), a).toString();
      }
      return new Ref.Out(Ref.Kind.OK, text, null);
    } catch (Throwable t) {
      return Impl.formatOutcome(t, "");
    }
  }

  private static void each(Explorer.Path p, String where, int variant) {
    for (Corpus.Item i : corpus()) {
      Ref.Out want = i.want();
      for (int sink = 0; sink < 4; sink++) {
        Ref.Out got = run(i, variant, sink);
        p.trace();
        p.state(where + variant + i.fmt, got.hashCode());
        if (!Impl.agrees(want, got)) p.fail(where + ", variant " + variant + ": " + i + " gave " + got + ", model says " + want);
      }
    }
  }

  @SuppressWarnings("unchecked")
  private static <T extends Throwable> void raise(Throwable t) throws T {
    throw (T) t;
  }

  /** Fails at the first append, or at the second one. */
  private static final class Refusing implements Appendable {
    private final Throwable given;
    private int left;

    Refusing(Throwable given, int left) {
      this.given = given;
      this.left = left;
    }

    private Appendable tick() {
      if (left-- <= 0) C31.<RuntimeException>raise(given);
      return this;
    }

    @Override
    public Appendable append(CharSequence s) {
      return tick();
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      return tick();
    }

    @Override
    public Appendable append(char c) {
      return tick();
    }
  }

  /** Has an answer for every property that is neither set nor the Java library's own. */
  private static final class Answering extends Properties {
    private static final long serialVersionUID = 1L;
    private static final String[] THEIRS = {"java.", "javax.", "sun.", "jdk.", "user.", "os.", "file.", "line.", "path.", "mc.", "com.sun.", "native.", "std", "awt.", "swing."};
    private final String answer;

    Answering(Properties old, String answer) {
      this.answer = answer;
      putAll(old);
    }

    @Override
    public String getProperty(String key) {
      String v = super.getProperty(key);
      if (v != null) return v;
      for (String t : THEIRS) if (key.startsWith(t)) return null;
      return answer;
    }

    @Override
    public String getProperty(String key, String other) {
      String v = getProperty(key);
      return v == null ? other : v;
    }
  }

  /** The corpus in a JVM where every property of another's has a value, from before the product is loaded. */
  static final class Asked extends Check {
    @Override
    void define() {
      System.setProperties(new Answering(System.getProperties(), System.getProperty("mc.answer")));
      phase(
          "corpus",
          "the corpus, its failing items and malformed formats x formatter variants x 4 sinks",
          p -> each(p, "properties answered with \"" + System.getProperty("mc.answer") + "\"", p.choose(C10.VARIANTS)));
    }
  }

  private static final String[] ANSWERS = {"", "0", "1", "2", "true", "false", "x"};

  @Override
  void after(Explorer x) throws Throwable {
    for (String a : ANSWERS) {
      Child.run(x, "unknown system properties with the value \"" + a + "\"", System.getProperty("java.home"), java.util.Collections.singletonList("-Dmc.answer=" + a), "C31$Asked", thorough ? "thorough" : "quick");
    }
  }

  @Override
  void define() {
    phase(
        "calling threads",
        THREADS.length + " kinds of calling thread x " + C10.VARIANTS + " formatter variants x the corpus, its failing items and malformed formats x 4 sinks, compiled and formatted there; the thread's state afterwards",
        p -> {
          int kind = p.choose(THREADS.length);
          int variant = p.choose(C10.VARIANTS);
          Throwable[] bad = new Throwable[1];
          on(
              kind,
              () -> {
                try {
                  String before = threadState();
                  each(p, THREADS[kind], variant);
                  String after = threadState();
                  if (!before.equals(after)) p.fail("the thread was " + before + " and is " + after);
                } catch (Throwable t) {
                  bad[0] = t;
                }
              });
          if (bad[0] != null) throw bad[0];
          if (kind == 4) Thread.interrupted();
          p.sample(() -> THREADS[kind] + ", variant " + variant + ": every call agrees with the model");
        });
    phase(
        "formatters handed from thread to thread",
        "all ordered pairs of 13 kinds of thread x cached or not: one formatter used by both, one after the other, the corpus",
        p -> {
          int first = p.choose(13);
          int second = p.choose(13);
          boolean cached = p.flip();
          List<FastPrintf> fs = new ArrayList<>();
          List<Corpus.Item> items = new ArrayList<>(Corpus.items());
          items.addAll(Corpus.failing());
          for (Corpus.Item i : items) fs.add(C10.variant(FastPrintf.compile(i.fmt), cached ? 1 : 0));
          Throwable[] bad = new Throwable[1];
          for (int kind : new int[] {first, second, first}) {
            on(
                kind,
                () -> {
                  try {
                    int k = 0;
                    for (Corpus.Item i : items) {
                      Ref.Out got = Impl.run(fs.get(k++), i.args);
                      p.trace();
                      if (!Impl.agrees(i.want(), got)) p.fail(THREADS[first] + ", then " + THREADS[second] + ": " + i + " gave " + got);
                    }
                  } catch (Throwable t) {
                    bad[0] = t;
                  }
                });
            if (bad[0] != null) throw bad[0];
          }
          p.state(first * 13 + second, cached ? 1 : 0);
        });
    final List<Kind> kinds = kinds();
    phase(
        "callbacks",
        "arrays, lists and arguments of n = 0..40, 2^k-1, 2^k, 2^k+1 to 2^16 objects x 7 ways to hand them over x cached or not: which thread asks each of them, in which order, how often",
        p -> {
          int at = p.choose(41 + 3 * 11);
          int n = at <= 40 ? at : (1 << 6 + (at - 41) / 3) + (at - 41) % 3 - 1;
          int way = p.choose(7);
          if (way >= 4 && n > 3000) return;
          boolean cached = p.flip();
          Thread me = Thread.currentThread();
          int[] next = new int[1];
          String[] bad = new String[1];
          Object[] v = new Object[n];
          for (int i = 0; i < n; i++) {
            final int k = i;
            v[i] =
                new Object() {
                  @Override
                  public String toString() {
                    if (Thread.currentThread() != me) bad[0] = "object " + k + " was asked by " + Thread.currentThread();
                    if (next[0]++ != k) bad[0] = "object " + k + " was asked as number " + (next[0] - 1);
                    return "o" + k % 10;
                  }
                };
          }
          StringBuilder want = new StringBuilder();
          String sep = way >= 4 ? "" : ", ";
          for (int i = 0; i < n; i++) want.append(i == 0 ? "" : sep).append('o').append(i % 10);
          if (way < 4) want.insert(0, '[').append(']');
          String fmt;
          Args a;
          switch (way) {
            case 0:
              fmt = "%s";
              a = Args.create().put(v);
              break;
            case 1:
              fmt = "%S";
              a = Args.create().put(new ArrayList<Object>(Arrays.asList(v)));
              break;
            case 2:
              fmt = "%2s";
              a = Args.of(new Object[] {Arrays.asList(v)});
              break;
            case 3:
              fmt = "%-2s";
              a = Args.create().put(v);
              break;
            default:
              {
                StringBuilder b = new StringBuilder();
                for (int i = 0; i < n; i++) b.append(way == 5 ? "%1s" : "%s");
                fmt = b.toString();
                a = way == 4 ? Args.of(v) : way == 5 ? Args.of(Arrays.asList(v)) : Args.create();
                if (way == 6) for (Object o : v) a.put(o);
              }
          }
          FastPrintf f = FastPrintf.compile(fmt);
          if (cached) f = f.enableThreadLocalCache();
          String got = way == 3 ? f.format(new StringBuffer(), a).toString() : f.format(a);
          String w = way == 1 ? want.toString().toUpperCase(Locale.ROOT) : want.toString();
          p.trace();
          p.state(way * 100000L + n, cached);
          if (bad[0] != null) p.fail(n + " objects, way " + way + ": " + bad[0]);
          if (next[0] != n) p.fail(n + " objects, way " + way + ": asked " + next[0] + " times");
          if (!got.equals(w)) p.fail(n + " objects, way " + way + " gave another text");
        });
    phase(
        "arguments are not changed",
        kinds.size() + " kinds of changeable argument x " + CONVERSIONS.length() + " conversions x " + LAYOUTS.length + " layouts x 6 routes; what can be seen of the argument, the array and the list before and after",
        p -> {
          Kind k = kinds.get(p.choose(kinds.size()));
          String fmt = "%" + p.pick(LAYOUTS) + p.pick(CONVERSIONS.split(""));
          int route = p.choose(6);
          Object made = k.make.get();
          String want = k.look.apply(k.make.get());
          Object arg = argument(made);
          Object[] array = {arg, "second", 3};
          Object[] copy = array.clone();
          List<Object> list = new ArrayList<>(Arrays.asList(array));
          FastPrintf f = FastPrintf.compile(fmt + "|%s%d");
          String got;
          String again = null;
          switch (route) {
            case 0:
              got = attempt(() -> f.format(array));
              break;
            case 1:
              got = attempt(() -> f.format(Args.of(array)));
              break;
            case 2:
              got = attempt(() -> f.format(Args.of(list)));
              break;
            case 3:
              got = attempt(() -> f.format(new StringBuilder(), Args.of(array)).toString());
              break;
            case 4:
              got = attempt(() -> f.format(new C10.Own(false), Args.of(array)).got.toString());
              break;
            default:
              Args a = Args.of(list);
              got = attempt(() -> f.format(a));
              again = attempt(() -> f.enableThreadLocalCache().format(a));
          }
          p.trace();
          p.state(k.name + fmt, got);
          String now = k.look.apply(made);
          if (!now.equals(want)) p.fail(fmt + " by route " + route + " changed a " + k.name + " from " + want + " to " + now);
          if (!Arrays.equals(array, copy)) p.fail(fmt + " by route " + route + " changed the array of arguments");
          for (int i = 0; i < copy.length; i++) if (list.size() != copy.length || list.get(i) != copy[i]) p.fail(fmt + " by route " + route + " changed the list of arguments");
          if (again != null && !again.equals(got)) p.fail(fmt + " of a " + k.name + " gives " + got + ", then " + again);
          p.sample(() -> fmt + " of a " + k.name + " -> " + Show.text(got));
        });
    sequentialPhase(
        "process",
        C10.VARIANTS + " formatter variants x the corpus: standard streams, default locale and zone, properties, handlers and number of threads afterwards",
        p -> {
          int variant = p.choose(C10.VARIANTS);
          PrintStream out = System.out;
          PrintStream err = System.err;
          InputStream in = System.in;
          ByteArrayOutputStream seen = new ByteArrayOutputStream();
          String before = process();
          TimeZone zone = TimeZone.getDefault();
          String text;
          int threads = Thread.getAllStackTraces().size();
          int added;
          try {
            PrintStream watch = new PrintStream(seen, true, "UTF-8");
            System.setOut(watch);
            System.setErr(watch);
            System.setIn(new ByteArrayInputStream(new byte[9]));
            each(p, "process", variant);
            added = Thread.getAllStackTraces().size() - threads;
            if (System.out != watch || System.err != watch) p.fail("the standard streams were replaced");
            if (System.in.available() != 9) p.fail("the standard input was read");
            text = seen.toString("UTF-8");
          } finally {
            System.setOut(out);
            System.setErr(err);
            System.setIn(in);
          }
          if (!text.isEmpty()) p.fail("printed to the standard streams: " + Show.text(text));
          String after = process();
          if (!before.equals(after) || !zone.equals(TimeZone.getDefault())) p.fail("the process was " + before + " and is " + after);
          // the runtime may start a compiler or reference thread of its own
          if (added > 16) p.fail(added + " threads more than before");
        });
    sequentialPhase(
        "surroundings",
        PROPERTIES.length + " system properties x " + VALUES.length + " values (absent among them) x cached or not x the corpus",
        p -> {
          String name = p.pick(PROPERTIES);
          String value = VALUES[p.choose(VALUES.length)];
          int variant = p.choose(2);
          String old = System.getProperty(name);
          try {
            if (value == null) System.clearProperty(name);
            else System.setProperty(name, value);
            each(p, name + "=" + value, variant);
          } finally {
            if (old == null) System.clearProperty(name);
            else System.setProperty(name, old);
          }
        });
    final Locale[] locales = {Locale.ROOT, Locale.US, Locale.FRANCE, new Locale("tr", "TR"), Locale.forLanguageTag("ar-EG-u-nu-arab"), Locale.forLanguageTag("th-TH-u-ca-buddhist")};
    sequentialPhase(
        "defaults changed in between",
        "all pairs of " + locales.length + " locales, compiled under one and used under the other, different ones for texts and for display; the corpus, its failing items and dates with and without the fields needed; the defaults afterwards",
        p -> {
          Locale one = p.pick(locales);
          Locale two = p.pick(locales);
          boolean split = p.flip();
          Locale old = Locale.getDefault();
          Locale oldFormat = Locale.getDefault(Locale.Category.FORMAT);
          Locale oldDisplay = Locale.getDefault(Locale.Category.DISPLAY);
          TimeZone zone = TimeZone.getDefault();
          try {
            Locale.setDefault(one);
            List<Corpus.Item> items = new ArrayList<>(Corpus.items());
            items.addAll(Corpus.failing());
            for (String pattern : new String[] {"", "{HH}", "{yyyy}", "{MMM}", "{EEEE d. MMMM}", "{a}", "{xxx}"}) {
              for (Object d : new Object[] {java.time.LocalDate.of(2020, 5, 6), java.time.LocalTime.NOON, java.time.Instant.EPOCH, new Date(5), 7, -7, "no date", null, java.time.ZonedDateTime.of(2020, 5, 6, 7, 8, 9, 0, java.time.ZoneOffset.UTC)}) {
                items.add(new Corpus.Item("%t" + pattern, d));
                items.add(new Corpus.Item("a%20T" + pattern, d));
              }
            }
            List<FastPrintf> fs = new ArrayList<>();
            for (Corpus.Item i : items) fs.add(FastPrintf.compile(i.fmt));
            Locale.setDefault(two);
            if (split) Locale.setDefault(Locale.Category.DISPLAY, one);
            TimeZone.setDefault(TimeZone.getTimeZone(split ? "Asia/Kolkata" : "America/St_Johns"));
            String before = process();
            for (int k = 0; k < fs.size(); k++) {
              Impl.run(fs.get(k), items.get(k).args);
              run(items.get(k), 1, 2);
              p.trace();
              String after = process();
              if (!before.equals(after)) p.fail(items.get(k) + ", compiled under " + one + " and used under " + two + ": the process was " + before + " and is " + after);
            }
            p.state(one.toString() + two, split ? 1 : 0);
          } finally {
            Locale.setDefault(old);
            Locale.setDefault(Locale.Category.FORMAT, oldFormat);
            Locale.setDefault(Locale.Category.DISPLAY, oldDisplay);
            TimeZone.setDefault(zone);
          }
        });
    phase(
        "failing sinks and callbacks",
        C11.THINGS + " exceptions thrown by a sink or an argument x " + THREADS.length + " kinds of thread x formatter variants: the thread's state afterwards",
        p -> {
          int thing = p.choose(C11.THINGS);
          int kind = p.choose(THREADS.length);
          int variant = p.choose(C10.VARIANTS);
          Throwable[] bad = new Throwable[1];
          on(
              kind,
              () -> {
                try {
                  String before = threadState();
                  FastPrintf f = C10.variant(FastPrintf.compile("a%5s|%d%t"), variant);
                  for (int where = 0; where < 3; where++) {
                    Throwable given = C11.thing(thing);
                    int at = where;
                    Object arg =
                        new Object() {
                          @Override
                          public String toString() {
                            if (at == 2) C31.<RuntimeException>raise(given);
                            return "text";
                          }
                        };
                    try {
                      if (where == 2) f.format(arg, 1, new Date(7));
                      else f.format(new Refusing(given, where), Args.of(arg, 1, new Date(7)));
                      p.fail("nothing was thrown");
                    } catch (Explorer.Violation v) {
                      throw v;
                    } catch (Throwable expected) {
                      p.trace();
                    }
                    String after = threadState();
                    if (!before.equals(after)) p.fail(given.getClass() + " thrown at place " + where + " on " + THREADS[kind] + ": the thread was " + before + " and is " + after);
                  }
                } catch (Throwable t) {
                  bad[0] = t;
                }
              });
          if (bad[0] != null) throw bad[0];
          if (kind == 4) Thread.interrupted();
          p.state(THREADS[kind] + thing, variant);
        });
    assumptions.add("What can be seen of an argument through its public methods; a Calendar may complete its fields when it is asked for its time.");
  }
}
