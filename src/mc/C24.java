package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.io.StringWriter;
import java.lang.ref.WeakReference;
import java.lang.reflect.Array;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import java.util.concurrent.Callable;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;

/** A call leaves nothing behind. */
final class C24 extends Check {
  private static final int SINKS = 5;
  private static final String[] SINK = {"String", "StringBuilder", "own Appendable", "StringWriter", "failing Appendable"};

  /** An object the call was given or gave, which nobody holds any more. */
  private static final class Trace extends WeakReference<Object> {
    final String what;

    Trace(Object o, String what) {
      super(o);
      this.what = what;
    }
  }

  private static final class Own implements Appendable {
    final int room;
    int n;

    Own(int room) {
      this.room = room;
    }

    @Override
    public Appendable append(CharSequence s) throws java.io.IOException {
      return append(s, 0, s == null ? 4 : s.length());
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) throws java.io.IOException {
      n += b - a;
      if (n > room) throw new java.io.IOException("full");
      return this;
    }

    @Override
    public Appendable append(char c) throws java.io.IOException {
      n++;
      if (n > room) throw new java.io.IOException("full");
      return this;
    }
  }

  /** An argument with its own text. */
  private static final class Texted {
    @Override
    public String toString() {
      return "texted argument";
    }
  }

  /** A copy of the argument that nothing else refers to, or the argument if it is a shared constant. */
  @SuppressWarnings("deprecation")
  private static Object fresh(Object o) {
    if (o == null || o instanceof Boolean || o instanceof Class || o instanceof Enum) return o;
    if (o == C07.POINTEE) return new Texted();
    if (o instanceof String) return new String((String) o);
    if (o instanceof Integer) return new Integer((Integer) o);
    if (o instanceof Long) return new Long((Long) o);
    if (o instanceof Short) return new Short((Short) o);
    if (o instanceof Byte) return new Byte((Byte) o);
    if (o instanceof Character) return new Character((Character) o);
    if (o instanceof Float) return new Float((Float) o);
    if (o instanceof Double) return new Double((Double) o);
    if (o instanceof java.math.BigInteger) return new java.math.BigInteger(((java.math.BigInteger) o).toByteArray());
    if (o instanceof java.math.BigDecimal) return new java.math.BigDecimal(((java.math.BigDecimal) o).unscaledValue(), ((java.math.BigDecimal) o).scale());
    if (o instanceof StringBuilder) return new StringBuilder((StringBuilder) o);
    if (o instanceof Seq) return Seq.wrap(new String(o.toString())).append(Seq.forArray("and another part".toCharArray()));
    if (o.getClass().isArray()) {
      int n = Array.getLength(o);
      Object c = Array.newInstance(o.getClass().getComponentType(), n);
      for (int i = 0; i < n; i++) Array.set(c, i, o instanceof Object[] ? fresh(Array.get(o, i)) : Array.get(o, i));
      return c;
    }
    if (o instanceof java.time.LocalDateTime) return ((java.time.LocalDateTime) o).plusDays(1);
    if (o instanceof java.time.LocalDate) return ((java.time.LocalDate) o).plusDays(1);
    if (o instanceof java.time.OffsetDateTime) return ((java.time.OffsetDateTime) o).plusDays(1);
    if (o instanceof java.time.Instant) return ((java.time.Instant) o).plusSeconds(1);
    if (o instanceof List) return new ArrayList<>((List<?>) o);
    return o;
  }

  private static boolean shared(Object o) {
    return o == null || o instanceof Boolean || o instanceof Class || o instanceof Enum || o == Seq.empty()
        || !(o instanceof Ref.Prim) && fresh(o) == o;
  }

  /** Performs one call with objects of its own and lists them. */
  private static void call(FastPrintf f, String name, Corpus.Item it, int sink, int listKind, List<Trace> out) {
    Object[] a = new Object[it.args.length];
    String call = name + ", " + Show.text(it.fmt) + " into " + SINK[sink];
    for (int i = 0; i < a.length; i++) {
      Object o = it.args[i];
      a[i] = o instanceof Ref.Prim || shared(o) ? o : fresh(o);
      if (a[i] != o) {
        out.add(new Trace(a[i], call + ": argument " + (i + 1) + " (" + a[i].getClass().getName() + ")"));
        if (a[i] instanceof Object[]) {
          for (Object e : (Object[]) a[i]) if (!shared(e)) out.add(new Trace(e, call + ": an element of argument " + (i + 1)));
        }
      }
    }
    Args args;
    boolean prim = false;
    for (Object o : a) prim |= o instanceof Ref.Prim;
    if (prim || listKind == 0) {
      args = Impl.args(a);
    } else if (listKind == 1) {
      args = Args.of(a);
      out.add(new Trace(a, call + ": the argument array"));
    } else {
      List<Object> l = new ArrayList<>(Arrays.asList(a));
      args = Args.of((Iterable<?>) l);
      out.add(new Trace(l, call + ": the argument list object"));
    }
    out.add(new Trace(args, call + ": the Args"));
    Object got;
    try {
      if (sink == 0) {
        got = f.format(args);
        if (((String) got).isEmpty()) got = null;
      } else if (sink == 1) {
        got = f.format(new StringBuilder(), args);
      } else if (sink == 2) {
        got = f.format(new Own(Integer.MAX_VALUE), args);
      } else if (sink == 3) {
        got = f.format(new StringWriter(), args);
      } else {
        Own own = new Own(1);
        out.add(new Trace(own, call + ": the sink that failed"));
        got = f.format(own, args);
      }
    } catch (RuntimeException e) {
      got = null;
    }
    if (got != null && !(sink == 0 && constant(it))) out.add(new Trace(got, call + ": the " + got.getClass().getName() + " it ended with"));
  }

  /** A format without conversions may answer with a text it owns. */
  private static boolean constant(Corpus.Item it) {
    return Ref.format(it.fmt).kind == Ref.Kind.OK;
  }

  private static List<Corpus.Item> all() {
    List<Corpus.Item> l = new ArrayList<>(Corpus.items());
    l.addAll(Corpus.failing());
    return l;
  }

  private static List<String> held(List<Trace> traces) {
    List<String> out = new ArrayList<>();
    for (Trace t : traces) if (t.get() != null) out.add(t.what);
    return out;
  }

  /** What is still reachable after collecting. */
  private static List<String> collect(List<Trace> traces) throws InterruptedException {
    for (int i = 0; i < 8; i++) {
      System.gc();
      boolean any = false;
      for (Trace t : traces) any |= t.get() != null;
      if (!any) return Collections.emptyList();
      Thread.sleep(20L << i);
    }
    return held(traces);
  }

  private static void calls(Explorer.Path p, FastPrintf f, int variant, Corpus.Item it, int repeat, List<Trace> traces) {
    for (int sink = 0; sink < SINKS; sink++) {
      for (int kind = 0; kind < 3; kind++) {
        for (int r = 0; r < repeat; r++) call(f, "variant " + variant, it, sink, kind, traces);
        p.trace();
        p.state(it.fmt + sink, variant * 8 + kind);
      }
    }
  }

  private static long used() throws InterruptedException {
    Runtime r = Runtime.getRuntime();
    long best = Long.MAX_VALUE;
    for (int i = 0; i < 3; i++) {
      System.gc();
      Thread.sleep(20);
      best = Math.min(best, r.totalMemory() - r.freeMemory());
    }
    return best;
  }

  private static String text(int n, int id) {
    char[] c = new char[n];
    Arrays.fill(c, '€');
    StringBuilder b = new StringBuilder(n).append(c);
    String s = "" + id;
    b.replace(0, s.length(), s);
    return b.toString();
  }

  /** Growth of the live heap over doing something, in bytes; the smallest of some attempts. */
  private interface Work {
    Object run(int round) throws Exception;
  }

  /** Each attempt has a thread of its own, which is alive while the heap is measured. */
  private static long growth(Work w, long enough) throws Exception {
    long least = Long.MAX_VALUE;
    for (int i = 0; i < 3 && least >= enough; i++) {
      int round = i;
      ExecutorService one = Executors.newSingleThreadExecutor();
      try {
        long before = used();
        Object kept = one.submit(() -> w.run(round)).get();
        least = Math.min(least, used() - before);
        if (kept == one) throw new AssertionError();
      } finally {
        one.shutdown();
        one.awaitTermination(60, java.util.concurrent.TimeUnit.SECONDS);
      }
    }
    return least;
  }

  private static final String[] PLACES = {"alone", "in an array", "in an array of its class", "in a list", "its class", "an array of it inside an array"};

  /** One call with an object of a class of its own. */
  private static void stranger(FastPrintf f, String fmt, int place, int sink, List<Trace> traces) throws Exception {
    Class<?> c = new Fresh.Own().node();
    Object o = Fresh.node(c).apply(new Object[] {null, null});
    Object typed = java.lang.reflect.Array.newInstance(c, 1);
    java.lang.reflect.Array.set(typed, 0, o);
    Object[] v = {o, new Object[] {o}, typed, Arrays.asList(o, 1), c, new Object[] {typed}};
    try {
      if (sink == 0) f.format(Args.of(new Object[] {v[place]}));
      else if (sink == 1) f.format(new StringBuilder(), Args.of(new Object[] {v[place]}));
      else f.format(new Own(2), Args.of(new Object[] {v[place]}));
    } catch (RuntimeException e) {
      // refused: it has to be given up all the same
    }
    traces.add(new Trace(c.getClassLoader(), fmt + " of an object " + PLACES[place] + " into a " + SINK[sink == 2 ? 4 : sink]));
  }

  private static final long MB = 1 << 20;

  private static void small(Explorer.Path p, String what, long limit, Work w) throws Exception {
    long g = growth(w, limit);
    if (g >= limit) p.fail(what + ": " + g / 1024 + " KiB are held afterwards, more than " + limit / 1024 + " KiB");
    p.trace();
    p.state(what.hashCode());
  }

  @Override
  void define() {
    assumptions.add("The collector finds every unreachable object within eight full collections; Java constants (cached boxes, literals) are not counted.");

    sequentialPhase(
        "one thread",
        "all corpus cases, succeeding and failing, x 5 sinks (one failing) x 3 ways to make the list x 6 formatter variants, called twice; the formatters and the thread stay alive",
        p -> {
          int variant = p.choose(6);
          List<FastPrintf> alive = new ArrayList<>();
          List<Trace> traces = new ArrayList<>();
          for (Corpus.Item it : all()) {
            FastPrintf f = C10.variant(FastPrintf.compile(it.fmt), variant);
            alive.add(f);
            calls(p, f, variant, it, 2, traces);
          }
          int n = traces.size();
          List<String> held = collect(traces);
          if (alive.isEmpty()) throw new AssertionError();
          if (!held.isEmpty()) p.fail("still reachable after the call ended: " + held.get(0) + " (and " + (held.size() - 1) + " of " + n + " more)");
          p.sample(() -> "variant " + variant + ": none of " + n + " arguments, lists, sinks and results reachable after the calls");
        });

    sequentialPhase(
        "other threads",
        "the same calls on a pool thread that stays alive, and on threads that have ended",
        p -> {
          int variant = p.choose(6);
          boolean ends = p.flip();
          List<FastPrintf> alive = new ArrayList<>();
          List<Trace> traces = new ArrayList<>();
          ExecutorService pool = Executors.newSingleThreadExecutor();
          try {
            Callable<Void> c =
                () -> {
                  for (Corpus.Item it : all()) {
                    FastPrintf f = C10.variant(FastPrintf.compile(it.fmt), variant);
                    alive.add(f);
                    calls(p, f, variant, it, 1, traces);
                  }
                  return null;
                };
            pool.submit(c).get();
            if (ends) {
              pool.shutdown();
              pool.awaitTermination(60, java.util.concurrent.TimeUnit.SECONDS);
            }
            List<String> held = collect(traces);
            if (alive.isEmpty()) throw new AssertionError();
            if (!held.isEmpty()) p.fail("still reachable after the call ended on " + (ends ? "an ended" : "a living") + " thread: " + held.get(0) + " (and " + (held.size() - 1) + " more)");
          } finally {
            pool.shutdownNow();
          }
        });

    sequentialPhase(
        "classes",
        "20 formats, each given an object of a class of its own class loader in 6 places x 3 sinks (one failing) x 6 formatter variants; the loaders and classes are given up while the formatters and the thread stay alive",
        p -> {
          int variant = p.choose(6);
          boolean first = p.flip(); // the object is the first thing the formatter sees
          List<FastPrintf> alive = new ArrayList<>();
          List<Trace> traces = new ArrayList<>();
          for (String fmt : new String[] {"%s", "%S", "%30s", "%-30S", "%.2s", "%40.3s", "a%sb", "%p", "%-20p", "%i", "%c", "%d", "%x", "%o", "%u", "%f", "%e", "%a", "%*s", "%t{uuuu}"}) {
            FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
            alive.add(f);
            if (!first) {
              try {
                f.format("text");
              } catch (RuntimeException e) {
                // a format that takes something else
              }
            }
            for (int place = 0; place < PLACES.length; place++) {
              for (int sink = 0; sink < 3; sink++) {
                stranger(f, fmt, place, sink, traces);
                p.trace();
                p.state(fmt + place, variant * 4 + sink);
              }
            }
          }
          int n = traces.size();
          List<String> held = collect(traces);
          if (alive.isEmpty()) throw new AssertionError();
          if (!held.isEmpty()) p.fail("the class loader of the argument is still reachable after the call ended: " + held.get(0) + " (and " + (held.size() - 1) + " of " + n + " more)");
          p.sample(() -> "variant " + variant + ": none of " + n + " class loaders reachable after the calls");
        });

    sequentialPhase(
        "lists alive",
        "an argument list and a sink that stay alive do not keep the results or sinks of the calls they served",
        p -> {
          List<Object> alive = new ArrayList<>();
          List<Trace> traces = new ArrayList<>();
          for (Corpus.Item it : Corpus.items()) {
            FastPrintf f = FastPrintf.compile(it.fmt);
            Args args = Impl.args(it.args);
            alive.add(args);
            for (int i = 0; i < 2; i++) {
              if (it.args.length > 0) served(f, it, args, traces);
            }
            p.trace();
            p.state(it.fmt, 7);
          }
          List<String> held = collect(traces);
          if (alive.isEmpty()) throw new AssertionError();
          if (!held.isEmpty()) p.fail("still reachable through the argument list: " + held.get(0));
        });

    sequentialPhase(
        "growth",
        "live heap after 20,000 calls with distinct long arguments and 500,000 with distinct short ones per conversion and variant, 300,000 short formats, lists and sequences, 20,000 compilations of distinct formats, 2,000 threads, and oversized results followed by a small one on 100 cached formatters",
        p -> {
          int mode = p.choose(10);
          if (mode == 0) {
            String[] fmts = {"%s", "%S", "%.900s", "%1100s", "%-1100S"};
            String fmt = p.pick(fmts);
            int variant = p.choose(6);
            small(p, "20000 calls of " + fmt + " with distinct texts of 1000 chars, variant " + variant, 8 * MB, r -> {
              FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
              for (int i = 0; i < 20000; i++) f.format(Args.of(text(1000, r * 100000 + i)));
              return f;
            });
          } else if (mode == 1) {
            String fmt = p.pick(new String[] {"%.500f", "%.500e", "%500g", "%d", "%#0500x", "%500o", "%500u", "%.500a"});
            small(p, "20000 calls of " + fmt + " with distinct numbers", 4 * MB, r -> {
              FastPrintf f = FastPrintf.compile(fmt);
              boolean fp = "fega".indexOf(fmt.charAt(fmt.length() - 1)) >= 0;
              for (int i = 0; i < 20000; i++) f.format(fp ? (Object) (r * 1e9 + i * 1.25) : (Object) (r * 1000000000L + i * 17L));
              return f;
            });
          } else if (mode == 2) {
            small(p, "20000 compilations of distinct formats of 1000 chars", 8 * MB, r -> {
              for (int i = 0; i < 20000; i++) FastPrintf.compile(text(1000, r * 100000 + i) + "%d");
              return null;
            });
          } else if (mode == 3) {
            boolean bad = p.flip();
            small(p, "20000 compilations of distinct " + (bad ? "malformed formats" : "date patterns"), 8 * MB, r -> {
              for (int i = 0; i < 20000; i++) {
                String fmt = bad ? text(1000, r * 100000 + i) + "%q" : "%t{'" + text(1000, r * 100000 + i) + "'uuuu}";
                try {
                  FastPrintf.compile(fmt).format(java.time.LocalDate.of(2024, 2, 29));
                } catch (RuntimeException e) {
                  if (!bad) throw e;
                }
              }
              return null;
            });
          } else if (mode == 4) {
            int variant = p.choose(6);
            small(p, "2000 ended threads, variant " + variant, 8 * MB, r -> {
              FastPrintf f = C10.variant(FastPrintf.compile("%s|%d"), variant);
              for (int i = 0; i < 2000; i++) {
                int id = i;
                Thread t = new Thread(() -> f.format(text(10000, r * 100000 + id), id));
                t.start();
                t.join();
              }
              return f;
            });
          } else if (mode == 5) {
            boolean nested = p.flip();
            int after = 1 + p.choose(3);
            small(p, "100 cached formatters that printed 1000000 chars and then " + after + " short texts" + (nested ? ", nested" : ""), 32 * MB, r -> {
              List<FastPrintf> l = new ArrayList<>();
              for (int i = 0; i < 100; i++) {
                FastPrintf f = FastPrintf.compile("%s").enableThreadLocalCache();
                String big = text(1000000, r * 100000 + i);
                f.format(nested ? new Object() {
                  @Override
                  public String toString() {
                    return f.format(big);
                  }
                } : big);
                for (int k = 0; k < after; k++) f.format("short");
                l.add(f);
              }
              return l;
            });
          } else if (mode == 6) {
            int variant = p.choose(6);
            int n = variant == 3 ? 20000 : 500000;
            String fmt = p.pick(new String[] {"%d", "%s", "%.2f", "%p", "%c%%", "%T{uuuu}"});
            small(p, n + " calls of " + fmt + ", variant " + variant, variant == 3 ? MB : 4 * MB, r -> {
              FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
              Own own = new Own(Integer.MAX_VALUE);
              for (int i = 0; i < n; i++) {
                int k = r * n + i;
                Object v = fmt.equals("%d") ? (Object) k : fmt.equals("%s") ? "" + k : fmt.equals("%.2f") ? (Object) (k / 4.0) : fmt.equals("%c%%") ? (Object) (char) (k % 50000) : fmt.equals("%p") ? new int[] {k} : java.time.LocalDate.ofEpochDay(k);
                if (i % 2 == 0) f.format(Args.of(v));
                else f.format(own, Args.of(v));
              }
              return f;
            });
          } else if (mode == 7) {
            int what = p.choose(4);
            small(p, "300000 short " + new String[] {"formats", "argument lists", "sequences", "malformed formats"}[what], 4 * MB, r -> {
              for (int i = 0; i < 300000; i++) {
                int k = r * 300000 + i;
                if (what == 0) {
                  FastPrintf.compile(k + " %" + k % 60000 + "d");
                } else if (what == 1) {
                  Args a = Args.of("s" + k, k).putDouble(k).put(new Object[] {k});
                  a.values();
                  a.iterator().next();
                } else if (what == 2) {
                  Seq.wrap("s" + k).append(Seq.repeated((char) k, 1 + k % 30)).prepend(Seq.ch('x')).upperCase().subSequence(0, 2).toString();
                } else {
                  try {
                    FastPrintf.compile(k + " %" + k + "q");
                    p.fail("accepted");
                  } catch (io.fastprintf.PrintfSyntaxException e) {
                    continue;
                  }
                }
              }
              return null;
            });
          } else if (mode == 8) {
            String fmt = p.pick(new String[] {"%*s", "%-*S", "%0*d", "%.*d", "%*x", "%.*f", "%.*e", "%.*a", "%-*t", "%*c"});
            int sink = p.choose(3);
            char k = fmt.charAt(fmt.length() - 1);
            Object v = k == 's' || k == 'S' ? "text" : k == 'c' ? 'c' : k == 't' ? java.time.LocalDate.of(2024, 2, 29) : "fea".indexOf(k) >= 0 ? (Object) 1.25 : (Object) 42;
            small(p, "calls of " + fmt + " with 6000 different numbers for the star into " + SINK[sink], 4 * MB, r -> {
              FastPrintf f = FastPrintf.compile(fmt);
              for (int i = 0; i < 6000; i++) {
                Args a = Args.of(r * 6000 + i, v);
                if (sink == 0) f.format(a);
                else if (sink == 1) f.format(new StringBuilder(), a);
                else f.format(new Own(Integer.MAX_VALUE), a);
              }
              return f;
            });
          } else {
            small(p, "20000 failing calls with distinct texts", 8 * MB, r -> {
              FastPrintf f = FastPrintf.compile("%s %d").enableThreadLocalCache();
              for (int i = 0; i < 20000; i++) {
                try {
                  f.format(text(1000, r * 100000 + i), text(1000, -r * 100000 - i));
                } catch (RuntimeException e) {
                  continue;
                }
              }
              return f;
            });
          }
        });
  }

  private static void served(FastPrintf f, Corpus.Item it, Args args, List<Trace> traces) {
    String s = f.format(args);
    if (!s.isEmpty() && !constant(it)) traces.add(new Trace(s, it + ": the result"));
    traces.add(new Trace(f.format(new StringBuilder(), args), it + ": the StringBuilder"));
    traces.add(new Trace(f.format(new Own(Integer.MAX_VALUE), args), it + ": the Appendable"));
  }
}
