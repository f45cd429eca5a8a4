package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.File;
import java.io.IOException;
import java.nio.file.Files;
import java.util.function.Function;

/** Objects of classes nobody has seen before, whose texts need the texts of further ones. */
final class Fresh {
  private Fresh() {}

  /** Loaded anew for every execution. */
  public static final class Node implements Function<Object, Object> {
    private Object next;
    private Function<Object, Object> print;

    @Override
    @SuppressWarnings("unchecked")
    public Object apply(Object o) {
      Object[] v = (Object[]) o;
      next = v[0];
      print = (Function<Object, Object>) v[1];
      return this;
    }

    @Override
    public String toString() {
      return next == null ? "end" : (String) print.apply(next);
    }
  }

  static final class Own extends ClassLoader {
    Own() {
      super(Fresh.class.getClassLoader());
    }

    Class<?> node() throws IOException {
      byte[] b = Files.readAllBytes(new File(System.getProperty("mc.harness"), "mc/Fresh$Node.class").toPath());
      return defineClass("mc.Fresh$Node", b, 0, b.length);
    }
  }

  static final String[] FORMATS = {"<%s>", "[%9.4S]", "%d%s"};
  static final int ROUTES = 4;

  @SuppressWarnings("unchecked")
  static Function<Object, Object> node(Class<?> c) throws Exception {
    java.lang.reflect.Constructor<?> k = c.getDeclaredConstructor();
    k.setAccessible(true);
    return (Function<Object, Object>) k.newInstance();
  }

  private static Object[] list(String fmt, Object o) {
    return fmt.startsWith("%d") ? new Object[] {7, o} : new Object[] {o};
  }

  static void run(Explorer.Path p) throws Exception {
    String fmt = p.pick(FORMATS);
    FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(C10.VARIANTS));
    int depth = 1 + p.choose(4);
    int route = p.choose(ROUTES);
    boolean one = p.flip(); // all of one class, or each of its own
    Function<Object, Object> print =
        o -> {
          Object v = route == 1 ? new Object[] {o} : o;
          Args a = Args.of(list(fmt, v));
          return route == 2 ? f.format(new StringBuffer(), a).toString() : route == 3 ? f.format(new StringBuilder(), a).toString() : f.format(a);
        };
    Class<?> c = new Own().node();
    Object top = null;
    String want = "end";
    for (int i = 0; i <= depth; i++) {
      top = node(one ? c : new Own().node()).apply(new Object[] {top, print});
      if (i > 0) want = Ref.format(fmt, list(fmt, route == 1 ? "[" + want + "]" : want)).text;
    }
    want = Ref.format(fmt, list(fmt, route == 1 ? "[" + want + "]" : want)).text;
    String got;
    String what = fmt + " route " + route + " depth " + depth + (one ? " one class" : " several classes");
    try {
      got = (String) print.apply(top);
    } catch (RuntimeException e) {
      p.fail(what + " raised " + e);
      return;
    }
    p.trace();
    p.state(what, got);
    if (!want.equals(got)) p.fail(what + " gave " + Show.text(got) + ", model says " + Show.text(want));
    p.sample(() -> what);
  }
}
