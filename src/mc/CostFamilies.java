package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.AbstractSequentialList;
import java.util.Arrays;
import java.util.List;
import java.util.ListIterator;
import mc.sched.Cost;

/** Formats, arguments and sequences of a given size. */
@SuppressWarnings("unchecked")
public final class CostFamilies {
  private CostFamilies() {}

  interface Make {
    Object of(int n) throws Exception;
  }

  interface Use {
    Object of(Object o) throws Exception;
  }

  private static final int[] WIDE = {1024, 16384, 262144, 4194304};
  private static final int[] CAPPED = {256, 4096, 65536};
  private static final int[] SHORT = {64, 512, 4096};

  private static final List<Cost.Family> ALL = new ArrayList<>();

  private static void add(String name, int[] sizes, boolean whole, Make m, Use u) {
    ALL.add(
        new Cost.Family() {
          @Override
          public String name() {
            return name;
          }

          @Override
          public int[] sizes() {
            return sizes;
          }

          @Override
          public boolean whole() {
            return whole;
          }

          @Override
          public Object library(Object o) {
            Object[] args = o instanceof Call ? ((Call) o).a.values().toArray() : o instanceof Object[] && ((Object[]) o)[1] instanceof Args ? ((Args) ((Object[]) o)[1]).values().toArray() : null;
            if (args == null || args.length == 0 || !(args[args.length - 1] instanceof BigDecimal)) return null;
            BigDecimal v = (BigDecimal) args[args.length - 1];
            return new Object[] {v.unscaledValue().toString(), v.round(new java.math.MathContext(v.precision() - 1)).toPlainString(), v.setScale(6, java.math.RoundingMode.HALF_UP).toPlainString()};
          }

          @Override
          public Object prepare(int n) throws Exception {
            return m.of(n);
          }

          @Override
          public Object run(Object o) throws Exception {
            return u.of(o);
          }
        });
  }

  private static String rep(String s, int n) {
    StringBuilder b = new StringBuilder(s.length() * n);
    for (int i = 0; i < n; i++) b.append(s);
    return b.toString();
  }

  private static Object[] args(int n, Object... kinds) {
    Object[] a = new Object[n];
    for (int i = 0; i < n; i++) a[i] = kinds[i % kinds.length];
    return a;
  }

  /** A call, prepared. */
  private static final class Call {
    final FastPrintf f;
    final Args a;

    Call(String fmt, Object... a) {
      this.f = FastPrintf.compile(fmt);
      this.a = Args.of(a);
    }
  }

  /** An Appendable that counts. */
  private static final class Counter implements Appendable {
    long n;

    @Override
    public Appendable append(CharSequence s) {
      n += s.length();
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      n += b - a;
      return this;
    }

    @Override
    public Appendable append(char c) {
      n++;
      return this;
    }
  }

  /** A text that says what it costs to be read. */
  private static final class Text implements CharSequence {
    final String s;

    Text(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      Cost.steps(1);
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      Cost.steps(b - a);
      return new Text(s.substring(a, b));
    }

    @Override
    public String toString() {
      Cost.steps(s.length());
      return s;
    }
  }

  /** A list without fast access by index, and with a size that must be counted. */
  private static final class Linked<T> extends AbstractSequentialList<T> {
    final List<T> l;

    Linked(List<T> l) {
      this.l = l;
    }

    @Override
    public ListIterator<T> listIterator(int i) {
      Cost.steps(Math.min(i, l.size() - i));
      return l.listIterator(i);
    }

    @Override
    public int size() {
      Cost.steps(l.size());
      return l.size();
    }
  }

  private static void compile(String name, int[] sizes, java.util.function.IntFunction<String> fmt) {
    add("compile " + name, sizes, true, fmt::apply, f -> {
      try {
        return FastPrintf.compile((String) f);
      } catch (RuntimeException e) {
        return e.getMessage();
      }
    });
  }

  private static void format(String name, int[] sizes, boolean whole, java.util.function.IntFunction<String> fmt, java.util.function.IntFunction<Object[]> a) {
    Make m = n -> new Call(fmt.apply(n), a.apply(n));
    add(name, sizes, whole, m, c -> {
      try {
        return ((Call) c).f.format(((Call) c).a);
      } catch (RuntimeException e) {
        return e.getMessage();
      }
    });
    add(name + ", cached", sizes, whole, n -> {
      Call c = new Call(fmt.apply(n), a.apply(n));
      return new Object[] {c.f.enableThreadLocalCache(), c.a};
    }, o -> {
      FastPrintf f = (FastPrintf) ((Object[]) o)[0];
      Args x = (Args) ((Object[]) o)[1];
      try {
        f.format(x);
        return f.format(x);
      } catch (RuntimeException e) {
        return e.getMessage();
      }
    });
    add(name + ", into an Appendable", sizes, whole, m, c -> {
      try {
        return ((Call) c).f.format(new Counter(), ((Call) c).a);
      } catch (RuntimeException e) {
        return e.getMessage();
      }
    });
  }

  private static Seq chain(int n, boolean front) {
    Seq s = Seq.ch('a');
    for (int i = 1; i < n; i++) s = front ? s.prepend(Seq.ch('b')) : s.append(Seq.ch('b'));
    return s;
  }

  private static Seq balanced(int n) {
    return n == 1 ? Seq.wrap("ab") : balanced(n / 2).append(balanced(n - n / 2));
  }

  private static List<AtomicSeq> parts(int n) {
    List<AtomicSeq> l = new ArrayList<>(n);
    for (int i = 0; i < n; i++) l.add(Seq.wrap("p" + i % 10));
    return l;
  }

  public static List<Cost.Family> all() {
    if (!ALL.isEmpty()) return ALL;
    // the format
    compile("a literal", WIDE, n -> rep("x", n));
    compile("a literal with percent signs", WIDE, n -> rep("x%%", n));
    compile("many directives", WIDE, n -> rep("%d", n));
    compile("many directives and literals", WIDE, n -> rep("%-8.3f and ", n));
    compile("many star directives", WIDE, n -> rep("%*.*s", n));
    compile("many date patterns", WIDE, n -> rep("%t{uuuu}", n / 4));
    compile("a long date pattern", WIDE, n -> "%t{'" + rep("y", n) + "'}");
    compile("many flags", WIDE, n -> "%" + rep("-", n) + "d");
    compile("a width with leading zeros", WIDE, n -> "%-" + rep("0", n) + "5d");
    compile("a precision with leading zeros", WIDE, n -> "%." + rep("0", n) + "5d");
    compile("a width of many digits", WIDE, n -> "%" + rep("9", n) + "d");
    compile("an unfinished directive", WIDE, n -> rep("%d", n) + "%");
    compile("a bad directive at the end", WIDE, n -> rep("x", n) + "%q");
    compile("an unclosed pattern", WIDE, n -> "%t{" + rep("y", n));
    compile("many unclosed patterns", WIDE, n -> rep("%t{", n));
    compile("many braces", WIDE, n -> rep("%t'{", n) + rep("}", n));
    compile("a wide literal padding", CAPPED, n -> "%" + n + "%");
    // directives
    String[] conv = {"%d", "%i", "%u", "%o", "%x", "%X", "%f", "%e", "%g", "%a", "%s", "%S", "%c", "%p", "%t", "%n", "%%", "%5%", "%08.3d|", "%-9s|", "%*d", "%.*f", "%T{uuuu-MM}"};
    for (String c : conv) {
      compile("many " + c, WIDE, n -> rep(c, n));
      compile("many " + c + " and literals", WIDE, n -> rep(c + " x", n));
      compile("many " + c + " and a brace at the end", WIDE, n -> rep(c, n) + "{}");
      format(
          "many " + c,
          WIDE,
          true,
          n -> rep(c, n / 8),
          n -> {
            char k = c.charAt(c.length() - 1);
            Object v = k == 's' || k == 'S' || k == 'p' ? "text" : k == 'c' ? 'c' : k == 't' || k == '}' ? LocalDate.of(2024, 2, 29) : "fega".indexOf(k) >= 0 ? (Object) 1.25 : (Object) 42;
            if (k == 'n' || k == '%') return new Object[0];
            return c.indexOf('*') >= 0 ? args(n / 4, 3, v) : args(n / 8, v);
          });
    }
    format("literals only", WIDE, true, n -> rep("x", n), n -> new Object[0]);
    format("too few arguments", WIDE, true, n -> rep("%d", n), n -> args(n - 1, 7));
    format("too many arguments", WIDE, true, n -> "%d", n -> args(n, 7));
    // widths and precisions
    String[] wide = {"%Nd", "%-Nd", "%0Nd", "%.Nd", "%#.Nx", "%#0No", "%Nu", "%Ns", "%-NS", "%Nc", "%Np", "%Nt", "%Nf", "%0Ne", "%.Nf", "%.Ne", "%.Ng", "%#.Ng", "%.Na", "%0Na", "%-N.Nf", "%N.NG"};
    for (String w : wide) {
      char k = Character.toLowerCase(w.charAt(w.length() - 1));
      Object v = k == 's' || k == 'p' ? "text" : k == 'c' ? 'c' : k == 't' ? LocalDate.of(2024, 2, 29) : "fega".indexOf(k) >= 0 ? (Object) 1.25 : (Object) 42;
      format(w, CAPPED, true, n -> w.replace("N", "" + n), n -> new Object[] {v});
      if ("feg".indexOf(k) >= 0) {
        format(w + " of a BigDecimal", CAPPED, true, n -> w.replace("N", "" + n), n -> new Object[] {new BigDecimal("1.25")});
      }
      if ("feg".indexOf(k) >= 0) {
        format(w + " of a BigDecimal with zeros at the end", CAPPED, true, n -> w.replace("N", "" + n), n -> new Object[] {BigDecimal.ONE.setScale(n - 1)});
        format(w + " of a BigDecimal with zeros at the front", CAPPED, true, n -> w.replace("N", "" + n), n -> new Object[] {new BigDecimal(BigInteger.valueOf(125), n - 1)});
        format(w + " of a BigDecimal with a negative scale", CAPPED, true, n -> w.replace("N", "" + n), n -> new Object[] {new BigDecimal(BigInteger.valueOf(125), 5 - n)});
        format(w + " of a BigDecimal of nines", CAPPED, true, n -> w.replace("N", "" + n), n -> new Object[] {new BigDecimal(BigInteger.TEN.pow(n - 1).subtract(BigInteger.ONE), n / 2)});
      }
      if (w.indexOf('.') < 0) format(w.replace("N", "*"), CAPPED, true, n -> w.replace("N", "*"), n -> new Object[] {n, v});
    }
    // texts
    for (String c : new String[] {"%s", "%S", "%5s", "%.NS", "%.Ns"}) {
      java.util.function.IntFunction<String> fmt = n -> c.replace("N", "" + Math.min(65536, n / 2));
      format(c + " of a String", WIDE, true, fmt, n -> new Object[] {rep("y", n)});
      format(c + " of a StringBuilder", WIDE, true, fmt, n -> new Object[] {new StringBuilder(rep("y", n))});
      format(c + " of an own text", WIDE, true, fmt, n -> new Object[] {new Text(rep("y", n))});
      format(c + " of an own composition", WIDE, true, fmt, n -> new Object[] {C27.OwnParts.cut(rep("y", n), -1)});
      format(c + " of a char[]", WIDE, true, fmt, n -> new Object[] {rep("y", n).toCharArray()});
      format(c + " of a byte[]", WIDE, true, fmt, n -> new Object[] {new byte[n]});
      format(c + " of an int[]", WIDE, true, fmt, n -> new Object[] {new int[n]});
      format(c + " of a double[]", WIDE, true, fmt, n -> new Object[] {new double[n / 4]});
      format(c + " of an Object[]", WIDE, true, fmt, n -> new Object[] {args(n / 4, 1, "two", null, 'c')});
      format(c + " of a list", WIDE, true, fmt, n -> new Object[] {Arrays.asList(args(n / 4, 1, "two"))});
      format(c + " of appended parts", WIDE, true, fmt, n -> new Object[] {chain(n / 4, false)});
      format(c + " of prepended parts", WIDE, true, fmt, n -> new Object[] {chain(n / 4, true)});
      format(c + " of balanced parts", WIDE, true, fmt, n -> new Object[] {balanced(n / 4)});
      format(c + " of joined parts", WIDE, true, fmt, n -> new Object[] {Seq.join(parts(n / 4))});
      format(c + " of a repeated char", WIDE, true, fmt, n -> new Object[] {Seq.repeated('k', n)});
      format(c + " of a lazy text", WIDE, true, fmt, n -> new Object[] {Seq.lazy(b -> b.append(rep("y", n)), n)});
    }
    for (String c : new String[] {"%d", "%x", "%*d", "%c", "%t"}) {
      format(c + " of a text that is not a number", WIDE, true, n -> c, n -> new Object[] {rep("y", n), 5});
      format(c + " of an own text that is not a number", WIDE, true, n -> c, n -> new Object[] {new Text(rep("y", n)), 5});
      format(c + " of a text of digits", WIDE, true, n -> c, n -> new Object[] {rep("0", n) + "7", 5});
    }
    // numbers whose digits the library makes: only the product's own steps
    for (String c : new String[] {"%d", "%x", "%o", "%u", "%f", "%.3f", "%e", "%.40e", "%g", "%#g", "%020d", "%.9d", "%s"}) {
      format(c + " of a BigInteger", SHORT, false, n -> c, n -> new Object[] {BigInteger.TEN.pow(n).subtract(BigInteger.ONE)});
      if ("dxou".indexOf(c.charAt(c.length() - 1)) < 0) {
        format(c + " of a BigDecimal", SHORT, false, n -> c, n -> new Object[] {new BigDecimal(BigInteger.TEN.pow(n).subtract(BigInteger.ONE), n / 2)});
        format(c + " of a small BigDecimal", SHORT, false, n -> c, n -> new Object[] {new BigDecimal(BigInteger.ONE, n)});
        format(c + " of a large BigDecimal", SHORT, false, n -> c, n -> new Object[] {new BigDecimal(BigInteger.ONE, -n)});
      }
    }
    // argument lists
    add("Args.of an array", WIDE, true, n -> args(n, 1, "two", 3.0, null), a -> Args.of((Object[]) a));
    add("Args.of a list", WIDE, true, n -> Arrays.asList(args(n, 1, "two", 3.0, null)), a -> Args.of((Iterable<?>) a));
    add("Args.of a linked list", WIDE, true, n -> new Linked<>(Arrays.asList(args(n, 1, "two", 3.0, null))), a -> Args.of((Iterable<?>) a));
    add("Args.of a set", WIDE, true, n -> {
      java.util.Set<Object> set = new java.util.LinkedHashSet<>();
      for (int i = 0; i < n / 4; i++) set.add(i);
      return set;
    }, a -> Args.of((Iterable<?>) a));
    add("Args.of an Iterable", WIDE, true, n -> Arrays.asList(args(n, 1, "two", 3.0, null)), a -> Args.of((Iterable<Object>) () -> ((List<Object>) a).iterator()));
    add("puts", WIDE, true, n -> n, n -> {
      Args a = Args.create();
      for (int i = 0; i < (Integer) n / 4; i++) a.putInt(i).put("s").putDouble(1.5).putNull();
      return a;
    });
    add("values of a list", WIDE, true, n -> Args.of(args(n, 1, "two", 3.0, null)), a -> ((Args) a).values());
    add("text of a list", WIDE, true, n -> Args.of(args(n, 1, "two", 3.0, null)), a -> a.toString());
    add("walking a list", WIDE, true, n -> Args.of(args(n, 1, "two", 3.0, null)), a -> {
      int k = 0;
      for (Object t : (Args) a) k += t == null ? 1 : 2;
      return k;
    });
    // histories
    for (int v = 0; v < 6; v++) {
      int variant = v;
      add("many calls, variant " + v, CAPPED, true, n -> n / 4, n -> {
        FastPrintf f = C10.variant(FastPrintf.compile("%s=%d;%5.2f"), variant);
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < (Integer) n; i++) {
          f.format("k", i, 2.5);
          if (i % 16 == 0) f.format(b, Args.of("k", i, 2.5));
        }
        return b;
      });
    }
    add("many compilations", WIDE, true, n -> n / 8, n -> {
      FastPrintf f = null;
      for (int i = 0; i < (Integer) n; i++) f = FastPrintf.compile("%d items " + i + " %s");
      return f;
    });
    // sequences
    add("appending", WIDE, true, n -> n, n -> chain((Integer) n, false));
    add("prepending", WIDE, true, n -> n, n -> chain((Integer) n, true));
    add("joining", WIDE, true, n -> parts(n), l -> Seq.join(parts(((List<?>) l).size())));
    add("joining a linked list", WIDE, true, n -> new Linked<>(parts(n)), l -> Seq.join((List<AtomicSeq>) l));
    String[] ropes = {"appended", "prepended", "balanced", "joined"};
    for (int k = 0; k < 4; k++) {
      int kind = k;
      Make m = n -> kind == 0 ? chain(n, false) : kind == 1 ? chain(n, true) : kind == 2 ? balanced(n) : Seq.join(parts(n));
      add("toString of " + ropes[k] + " parts", WIDE, true, m, s -> s.toString());
      add("upperCase of " + ropes[k] + " parts", WIDE, true, m, s -> ((Seq) s).upperCase().toString());
      add("appendTo of " + ropes[k] + " parts", WIDE, true, m, s -> {
        StringBuilder b = new StringBuilder();
        ((Seq) s).appendTo(b);
        return b;
      });
      add("half of " + ropes[k] + " parts", WIDE, true, m, s -> ((Seq) s).subSequence(((Seq) s).length() / 4, ((Seq) s).length() * 3 / 4).toString());
      add("a few characters of " + ropes[k] + " parts", WIDE, true, m, s -> {
        int x = 0;
        for (int i = 0; i < 8; i++) x += ((Seq) s).charAt((int) (((Seq) s).length() * (long) i / 8));
        return x;
      });
    }
    return ALL;
  }
}
