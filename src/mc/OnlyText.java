package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.lang.reflect.Proxy;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;

/** Objects that have a text and nothing else, whatever interface they implement. */
final class OnlyText {
  private OnlyText() {}

  private static final String[] NAMES = {
    "java.lang.Runnable", "java.lang.Iterable", "java.lang.Comparable", "java.lang.Cloneable", "java.io.Serializable", "java.lang.AutoCloseable", "java.io.Closeable", "java.io.Flushable", "java.lang.Readable", "java.lang.Appendable", "java.io.Externalizable",
    "java.util.Collection", "java.util.List", "java.util.Set", "java.util.SortedSet", "java.util.Queue", "java.util.Deque", "java.util.Map", "java.util.SortedMap", "java.util.Map$Entry", "java.util.Iterator", "java.util.ListIterator", "java.util.PrimitiveIterator$OfInt", "java.util.Enumeration", "java.util.Spliterator", "java.util.RandomAccess", "java.util.Comparator", "java.util.Formattable", "java.util.EventListener", "java.util.Observer",
    "java.util.function.Supplier", "java.util.function.Function", "java.util.function.BiFunction", "java.util.function.Consumer", "java.util.function.Predicate", "java.util.function.IntSupplier", "java.util.function.LongSupplier", "java.util.function.DoubleSupplier", "java.util.function.BooleanSupplier", "java.util.function.UnaryOperator", "java.util.function.ObjIntConsumer",
    "java.util.concurrent.Callable", "java.util.concurrent.Future", "java.util.concurrent.Delayed", "java.util.concurrent.CompletionStage", "java.util.concurrent.Executor", "java.util.concurrent.BlockingQueue", "java.util.concurrent.ConcurrentMap", "java.util.concurrent.locks.Lock",
    "java.util.stream.Stream", "java.util.stream.IntStream", "java.util.stream.Collector",
    "java.nio.file.Path", "java.nio.channels.Channel", "java.nio.file.attribute.FileAttribute", "java.lang.reflect.Type", "java.lang.reflect.Member", "java.lang.annotation.Annotation", "java.security.Principal", "java.security.Key",
    "java.time.temporal.TemporalAmount", "java.time.temporal.TemporalUnit", "java.time.temporal.TemporalField", "java.time.temporal.TemporalAdjuster", "java.time.temporal.TemporalQuery", "java.time.chrono.Chronology", "java.time.chrono.ChronoPeriod",
    "java.sql.Array", "java.sql.Clob", "java.sql.Blob", "java.sql.Ref", "java.sql.RowId", "java.sql.Struct", "java.sql.SQLXML", "java.sql.Wrapper", "java.net.SocketOption", "java.util.logging.Filter"
  };

  static final List<Class<?>> INTERFACES = interfaces();

  private static List<Class<?>> interfaces() {
    List<Class<?>> l = new ArrayList<>();
    for (String n : NAMES) {
      try {
        l.add(Class.forName(n));
      } catch (ClassNotFoundException | LinkageError e) {
        // not on this runtime
      }
    }
    return l;
  }

  /** A class of our own whose inherited methods fail. */
  private static class Plain implements Comparable<Object> {
    final List<String> calls;

    Plain(List<String> calls) {
      this.calls = calls;
    }

    RuntimeException no(String what) {
      calls.add(what);
      return new UnsupportedOperationException(what);
    }

    @Override
    public int hashCode() {
      throw no("hashCode");
    }

    @Override
    public boolean equals(Object o) {
      throw no("equals");
    }

    @Override
    public int compareTo(Object o) {
      throw no("compareTo");
    }

    @Override
    protected Object clone() {
      throw no("clone");
    }

    public String getName() {
      throw no("getName");
    }

    @Override
    public String toString() {
      return "textOf";
    }
  }

  /** The same with more to be taken for. */
  private static final class More extends Plain implements Iterable<Object>, java.util.Formattable, java.util.function.Supplier<Object>, java.util.concurrent.Callable<Object>, AutoCloseable {
    More(List<String> calls) {
      super(calls);
    }

    @Override
    public java.util.Iterator<Object> iterator() {
      throw no("iterator");
    }

    @Override
    public void formatTo(java.util.Formatter f, int flags, int width, int precision) {
      throw no("formatTo");
    }

    @Override
    public Object get() {
      throw no("get");
    }

    @Override
    public Object call() {
      throw no("call");
    }

    @Override
    public void close() {
      throw no("close");
    }
  }

  static final int OBJECTS = INTERFACES.size() + 2;
  static final int PLACES = 9;
  static final String[] FORMATS = {"%s", "%-12S|", "%9.3s|", "%.0s"};

  private static Object make(int kind, List<String> calls) {
    if (kind == 0) return new Plain(calls);
    if (kind == 1) return new More(calls);
    return Proxy.newProxyInstance(
        OnlyText.class.getClassLoader(),
        new Class<?>[] {INTERFACES.get(kind - 2)},
        (self, m, a) -> {
          if (m.getName().equals("toString") && m.getParameterCount() == 0) return "textOf";
          calls.add(m.getName());
          throw new UnsupportedOperationException(m.getName());
        });
  }

  /** Conversions that take no such object, or only its text. */
  static final String[] OTHERS = {"%d", "%5u", "%#x", "%o", "%f", "%.3e", "%G", "%a", "%c", "%t", "%T{uuuu}", "%*s", "%.*f", "%n"};

  /** The same objects under conversions that want something else. */
  static void others(Explorer.Path p) {
    int kind = p.choose(OBJECTS);
    String fmt = p.pick(OTHERS);
    boolean array = p.flip();
    FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(2));
    List<String> calls = Collections.synchronizedList(new ArrayList<>());
    Object o = make(kind, calls);
    String what = (kind < 2 ? "an object of our own, " + kind : "a " + INTERFACES.get(kind - 2).getName()) + (array ? " in an array" : "") + " under " + fmt;
    Object standIn =
        new Object() {
          @Override
          public String toString() {
            return "textOf";
          }
        };
    Object v = array ? new Object[] {o} : o;
    Object w = array ? new Object[] {standIn} : standIn;
    Ref.Out want = fmt.contains("*") ? Ref.format(fmt, w, 1.5) : Ref.format(fmt, w);
    Ref.Out got = fmt.contains("*") ? Impl.run(f, v, 1.5) : Impl.run(f, v);
    p.trace();
    p.state(what, got.kind);
    if (!calls.isEmpty()) p.fail(what + ": more than the text was asked for: " + calls);
    if (!Impl.agrees(want, got)) p.fail(what + " gave " + got + ", model says " + want);
    p.sample(() -> what);
  }

  static void run(Explorer.Path p) {
    int kind = p.choose(OBJECTS);
    int place = p.choose(PLACES);
    String fmt = p.pick(FORMATS);
    FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(2));
    List<String> calls = Collections.synchronizedList(new ArrayList<>());
    Object o = make(kind, calls);
    String what = (kind < 2 ? "an object of our own, " + kind : "a " + INTERFACES.get(kind - 2).getName()) + " under " + fmt + " in place " + place;
    String text = "textOf";
    String got;
    try {
      Args a;
      switch (place) {
        case 0:
          a = Args.create().put(o);
          break;
        case 1:
          a = Args.of(new Object[] {o});
          break;
        case 2:
          a = Args.of(Collections.singletonList(o));
          break;
        case 3:
          a = Args.create().put(new Object[] {o});
          text = "[textOf]";
          break;
        case 4:
          a = Args.create().put(new Object[] {"x", o});
          text = "[x, textOf]";
          break;
        case 5:
          a = Args.create().put(new Object[] {o, o, 1});
          text = "[textOf, textOf, 1]";
          break;
        case 6:
          a = Args.create().put(Arrays.asList(o, null));
          text = "[textOf, null]";
          break;
        case 7:
          a = Args.create().put(Collections.singletonMap("k", o));
          text = "{k=textOf}";
          break;
        default:
          a = Args.create().put(new java.util.AbstractMap.SimpleEntry<Object, Object>("k", o));
          text = "k=textOf";
      }
      got = f.format(a);
    } catch (RuntimeException e) {
      p.fail(what + " raised " + e + " after calls of " + calls);
      return;
    }
    p.trace();
    p.state(what, got);
    if (!calls.isEmpty()) p.fail(what + ": more than the text was asked for: " + calls);
    String want = Ref.format(fmt, text).text;
    if (!want.equals(got)) p.fail(what + " gave " + Show.text(got) + ", model says " + Show.text(want));
    p.sample(() -> what);
  }
}
