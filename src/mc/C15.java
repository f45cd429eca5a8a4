package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.OffsetDateTime;
import java.time.ZoneOffset;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.Iterator;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.function.Function;

/** Ways of supplying arguments. */
final class C15 extends Check {

  /** One way to put a value. */
  static final class Put {
    final String name;
    final Object model; // Ref value
    final Function<Args, Args> f;

    Put(String name, Object model, Function<Args, Args> f) {
      this.name = name;
      this.model = model;
      this.f = f;
    }

    Object boxed() {
      return model instanceof Ref.Prim ? ((Ref.Prim) model).boxed : model;
    }
  }

  private static void prim(List<Put> l, String name, Object v, Function<Args, Args> f) {
    l.add(new Put(name, new Ref.Prim(v), f));
  }

  private static void obj(List<Put> l, String name, Object v, Function<Args, Args> f) {
    l.add(new Put(name, v, f));
  }

  static List<Put> puts() {
    List<Put> l = new ArrayList<>();
    obj(l, "putNull", null, Args::putNull);
    obj(l, "put(null)", null, a -> a.put(null));
    for (boolean b : new boolean[] {true, false}) {
      prim(l, "putBoolean", b, a -> a.putBoolean(b));
      Boolean o = b;
      obj(l, "putBooleanOrNull", o, a -> a.putBooleanOrNull(o));
      obj(l, "put(Boolean)", o, a -> a.put(o));
    }
    for (char c : new char[] {'a', 'Z', 'é', '一', '\u0000', '7'}) {
      prim(l, "putChar", c, a -> a.putChar(c));
      @SuppressWarnings("removal")
      Character o = new Character(c);
      obj(l, "putCharOrNull", o, a -> a.putCharOrNull(o));
      obj(l, "put(Character)", o, a -> a.put(o));
    }
    for (byte b : new byte[] {0, -1, 127, -128}) {
      prim(l, "putByte", b, a -> a.putByte(b));
      Byte o = b;
      obj(l, "putByteOrNull", o, a -> a.putByteOrNull(o));
      obj(l, "put(Byte)", o, a -> a.put(o));
    }
    for (short s : new short[] {0, -1, Short.MAX_VALUE, Short.MIN_VALUE, 200}) {
      prim(l, "putShort", s, a -> a.putShort(s));
      Short o = s;
      obj(l, "putShortOrNull", o, a -> a.putShortOrNull(o));
      obj(l, "put(Short)", o, a -> a.put(o));
    }
    for (int i : new int[] {0, 1, -1, 42, 127, 128, -128, -129, 1000, Integer.MAX_VALUE, Integer.MIN_VALUE}) {
      prim(l, "putInt", i, a -> a.putInt(i));
      @SuppressWarnings("removal")
      Integer o = new Integer(i);
      obj(l, "putIntOrNull", o, a -> a.putIntOrNull(o));
      obj(l, "put(Integer)", o, a -> a.put(o));
    }
    for (long i : new long[] {0, 1, -1, 127, 128, -128, -129, 1L << 40, Long.MAX_VALUE, Long.MIN_VALUE}) {
      prim(l, "putLong", i, a -> a.putLong(i));
      Long o = i;
      obj(l, "putLongOrNull", o, a -> a.putLongOrNull(o));
      obj(l, "put(Long)", o, a -> a.put(o));
    }
    for (float i : new float[] {0f, -0f, 1.5f, -2.5f, 0.1f, Float.NaN, Float.POSITIVE_INFINITY, 1e30f}) {
      prim(l, "putFloat", i, a -> a.putFloat(i));
      Float o = i;
      obj(l, "putFloatOrNull", o, a -> a.putFloatOrNull(o));
      obj(l, "put(Float)", o, a -> a.put(o));
    }
    for (double i : new double[] {0, -0.0, 1.5, -2.5, 0.1, Double.NaN, Double.NEGATIVE_INFINITY, 1e300, 3e9}) {
      prim(l, "putDouble", i, a -> a.putDouble(i));
      Double o = i;
      obj(l, "putDoubleOrNull", o, a -> a.putDoubleOrNull(o));
      obj(l, "put(Double)", o, a -> a.put(o));
    }
    obj(l, "putBooleanOrNull(null)", null, a -> a.putBooleanOrNull(null));
    obj(l, "putCharOrNull(null)", null, a -> a.putCharOrNull(null));
    obj(l, "putByteOrNull(null)", null, a -> a.putByteOrNull(null));
    obj(l, "putShortOrNull(null)", null, a -> a.putShortOrNull(null));
    obj(l, "putIntOrNull(null)", null, a -> a.putIntOrNull(null));
    obj(l, "putLongOrNull(null)", null, a -> a.putLongOrNull(null));
    obj(l, "putFloatOrNull(null)", null, a -> a.putFloatOrNull(null));
    obj(l, "putDoubleOrNull(null)", null, a -> a.putDoubleOrNull(null));
    obj(l, "putString(null)", null, a -> a.putString(null));
    obj(l, "putCharSequence(null)", null, a -> a.putCharSequence(null));
    obj(l, "putBigInteger(null)", null, a -> a.putBigInteger(null));
    obj(l, "putBigDecimal(null)", null, a -> a.putBigDecimal(null));
    obj(l, "putDateTime(null)", null, a -> a.putDateTime(null));
    for (String s : new String[] {"", "x", "text", "12", "-3.5"}) {
      obj(l, "putString", s, a -> a.putString(s));
      obj(l, "putCharSequence(String)", s, a -> a.putCharSequence(s));
      obj(l, "put(String)", s, a -> a.put(s));
      StringBuilder b = new StringBuilder(s);
      obj(l, "putCharSequence(StringBuilder)", b, a -> a.putCharSequence(b));
      obj(l, "put(StringBuilder)", b, a -> a.put(b));
    }
    BigInteger bi = new BigInteger("-123456789012345678901234567890");
    obj(l, "putBigInteger", bi, a -> a.putBigInteger(bi));
    obj(l, "put(BigInteger)", bi, a -> a.put(bi));
    BigDecimal bd = new BigDecimal("-12345.67890");
    obj(l, "putBigDecimal", bd, a -> a.putBigDecimal(bd));
    obj(l, "put(BigDecimal)", bd, a -> a.put(bd));
    LocalDate d = LocalDate.of(2024, 2, 29);
    obj(l, "putDateTime(LocalDate)", d, a -> a.putDateTime(d));
    obj(l, "put(LocalDate)", d, a -> a.put(d));
    OffsetDateTime od = OffsetDateTime.of(2024, 2, 29, 1, 2, 3, 4000000, ZoneOffset.UTC);
    obj(l, "putDateTime(OffsetDateTime)", od, a -> a.putDateTime(od));
    obj(l, "put(OffsetDateTime)", od, a -> a.put(od));
    Object any = C07.POINTEE;
    obj(l, "put(Object)", any, a -> a.put(any));
    int[] arr = {1, 2};
    obj(l, "put(int[])", arr, a -> a.put(arr));
    Object[] nest = {"n", null};
    obj(l, "put(Object[])", nest, a -> a.put(nest));
    List<String> list = Arrays.asList("l", "m");
    obj(l, "put(List)", list, a -> a.put(list));
    Object[] odd = {
      Args.of(1, "two"), Args.create(), list.iterator(), (Iterable<String>) list::iterator, new LinkedHashSet<>(list), java.util.Collections.singletonMap("k", 1), java.util.Optional.of(3), java.util.Optional.empty(),
      new char[] {'c', 'd'}, new byte[] {1, 2}, new String[] {"s"}, new Object[0], new int[0][0], String.class, Thread.State.NEW, new java.util.concurrent.atomic.AtomicInteger(5), java.util.stream.Stream.of(1),
      (Runnable) () -> {}, (java.util.function.Supplier<String>) () -> "supplied", (java.util.concurrent.Callable<String>) () -> "called", java.util.Locale.ROOT, new java.util.AbstractMap.SimpleEntry<>("k", "v"),
      FastPrintf.compile("%d"), new Exception("e"), new Object[] {new Object[] {"n"}}, new java.lang.ref.WeakReference<>("r"), java.util.concurrent.CompletableFuture.completedFuture("f")
    };
    for (Object o : odd) obj(l, "put(" + o.getClass().getSimpleName() + ")", o, a -> a.put(o));
    java.util.Date date = new java.util.Date(1700000000000L);
    obj(l, "put(Date)", date, a -> a.put(date));
    return l;
  }

  private static final List<Put> PUTS = puts();

  private static boolean same(Object want, Object got, boolean prim) {
    return prim ? want.equals(got) && want.getClass() == got.getClass() : want == got;
  }

  private static void values(Explorer.Path p, String how, Args a, List<Put> puts) {
    List<Object> v = a.values();
    if (v.size() != puts.size()) p.fail(how + ": values() has " + v.size() + " elements instead of " + puts.size());
    for (int i = 0; i < v.size(); i++) {
      Put q = puts.get(i);
      if (!same(q.boxed(), v.get(i), q.model instanceof Ref.Prim)) p.fail(how + ": values().get(" + i + ") is " + Show.arg(v.get(i)) + " instead of " + Show.arg(q.boxed()));
    }
  }

  private static void unmodifiable(Explorer.Path p, String how, Args a) {
    List<Object> v = a.values();
    int n = v.size();
    List<Runnable> ops = new ArrayList<>();
    ops.add(() -> v.add("more"));
    ops.add(() -> v.addAll(Arrays.asList("more", "yet")));
    if (n > 0) {
      ops.add(() -> v.set(0, "other"));
      ops.add(() -> v.remove(0));
      ops.add(v::clear);
      ops.add(() -> v.replaceAll(x -> "r"));
      ops.add(
          () -> {
            Iterator<Object> it = v.iterator();
            it.next();
            it.remove();
          });
    }
    for (int i = 0; i < ops.size(); i++) {
      try {
        ops.get(i).run();
      } catch (UnsupportedOperationException e) {
        continue;
      } catch (RuntimeException e) {
        p.fail(how + ": changing values() by operation " + i + " threw " + e);
      }
      p.fail(how + ": values() can be changed by operation " + i);
    }
  }

  private static Object[] boxed(List<Put> puts) {
    Object[] o = new Object[puts.size()];
    for (int i = 0; i < o.length; i++) o[i] = puts.get(i).boxed();
    return o;
  }

  private static Object[] models(List<Put> puts) {
    Object[] o = new Object[puts.size()];
    for (int i = 0; i < o.length; i++) o[i] = puts.get(i).model;
    return o;
  }

  private static Ref.Out run(FastPrintf f, Args a) {
    try {
      return new Ref.Out(Ref.Kind.OK, f.format(a), null);
    } catch (Throwable t) {
      return Impl.formatOutcome(t, "");
    }
  }

  /** All constructions of the same list; %p distinguishes primitives, so only for the typed one. */
  private static Args build(int how, List<Put> puts) {
    Object[] b = boxed(puts);
    switch (how) {
      case 0:
        {
          Args a = Args.create();
          for (Put q : puts) a = q.f.apply(a);
          return a;
        }
      case 1:
        {
          Args a = Args.createWithExpectedSize(0);
          for (Put q : puts) q.f.apply(a);
          return a;
        }
      case 2:
        {
          Args a = Args.createWithExpectedSize(100);
          for (Put q : puts) q.f.apply(a);
          return a;
        }
      case 3:
        return Args.of(b);
      case 4:
        return Args.of(Arrays.asList(b));
      case 5:
        {
          final List<Object> l = Arrays.asList(b);
          Iterable<Object> it = l::iterator;
          return Args.of(it);
        }
      case 6:
        {
          Args a = Args.create();
          for (Object o : b) a.put(o);
          return a;
        }
      case 7:
        {
          // half by varargs, the rest put afterwards
          int h = b.length / 2;
          Args a = Args.of(Arrays.copyOf(b, h));
          for (int i = h; i < b.length; i++) a.put(b[i]);
          return a;
        }
      case 9:
        // an argument list made of another one
        return Args.of((Iterable<?>) build(0, puts));
      case 10:
        {
          // the elements of another argument list put one by one, that list extended meanwhile
          Args src = build(0, puts);
          Args a = Args.create();
          for (Object t : src) a.put(t);
          src.put("added to the source later");
          return a;
        }
      default:
        {
          int h = b.length / 2;
          Args a = Args.of(Arrays.asList(b).subList(0, h));
          for (int i = h; i < b.length; i++) puts.get(i).f.apply(a);
          return a;
        }
    }
  }

  /** Number of ways to build. */
  private static final int WAYS = 11;

  private static boolean typed(int how) {
    return how <= 2 || how >= 8;
  }

  private static final int SOURCES = 18;

  /** Something argument lists are made from; null if there is none of that size. */
  private static Object source(int kind, Object[] e) {
    List<Object> l = Arrays.asList(e);
    switch (kind) {
      case 0:
        return l;
      case 1:
        return new ArrayList<>(l);
      case 2:
        return new java.util.LinkedList<>(l);
      case 3:
        return Collections.unmodifiableList(l);
      case 4:
        return e.length == 0 ? Collections.emptyList() : e.length == 1 ? Collections.singletonList(e[0]) : null;
      case 5:
        return e.length == 0 ? Collections.emptySet() : e.length == 1 ? Collections.singleton(e[0]) : null;
      case 6:
        return new LinkedHashSet<>(l);
      case 7:
        return new java.util.ArrayDeque<>(l);
      case 8:
        return new java.util.Vector<>(l);
      case 9:
        return new java.util.concurrent.CopyOnWriteArrayList<>(l);
      case 10:
        return e;
      case 11:
        return (Iterable<Object>) l::iterator;
      case 12:
        return e.length < 2 ? Collections.nCopies(e.length, e.length == 0 ? null : e[0]) : null;
      case 13:
        return new ArrayList<>(l).subList(0, e.length);
      case 14:
        {
          java.util.Map<Object, Integer> m = new java.util.LinkedHashMap<>();
          for (Object o : e) m.put(o, 1);
          return m.keySet();
        }
      case 15:
        return Args.of(e);
      case 16:
        return Args.of(e).values();
      default:
        return Collections.synchronizedList(new ArrayList<>(l));
    }
  }

  private static Args made(Object source) {
    return source instanceof Object[] ? Args.of((Object[]) source) : Args.of((Iterable<?>) source);
  }

  @Override
  void define() {
    phase(
        "one value",
        PUTS.size() + " putters/values x " + WAYS + " ways of building x all conversions",
        p -> {
          Put q = p.pick(PUTS);
          int how = p.choose(WAYS);
          char c = "diuoxXfFeEgGaAcsStTnp".charAt(p.choose(21));
          String fmt = p.pick(new String[] {"%", "%12", "%-.3"}) + c;
          List<Put> l = Arrays.asList(q);
          Args a = build(how, l);
          Args fresh = Args.create();
          if (q.f.apply(fresh) != fresh) p.fail(q.name + " does not return the list it was called on");
          Args copy = Args.create();
          for (Object t : fresh) if (copy.put(t) != copy) p.fail("put of an element of a list does not return the list it was called on");
          Object m = typed(how) ? q.model : q.boxed();
          Ref.Out want = Ref.format(fmt, m);
          Ref.Out got = run(FastPrintf.compile(fmt), a);
          p.trace();
          p.state(q.name + fmt + how, got);
          if (!Impl.agrees(want, got)) p.fail(q.name + " of " + Show.arg(m) + " built way " + how + ": \"" + fmt + "\" gave " + got + ", model says " + want);
          values(p, q.name, a, l);
          p.sample(() -> q.name + " " + fmt + " -> " + got);
        });
    phase(
        "all sequences",
        "all sequences of " + (thorough ? "3" : "2") + " puts over " + PUTS.size() + " putters, " + WAYS + " ways of building, formatted twice, extended afterwards",
        p -> {
          Put x = p.pick(PUTS);
          Put y = p.pick(PUTS);
          List<Put> l = thorough ? Arrays.asList(x, y, PUTS.get(p.choose(PUTS.size() / 4) * 4)) : Arrays.asList(x, y);
          int how = p.choose(WAYS);
          String fmt = l.size() == 2 ? "%s,%-7.3S|" : "%s,%-7.3S|%s";
          Args a = build(how, l);
          FastPrintf f = FastPrintf.compile(fmt);
          Ref.Out want = Ref.format(fmt, models(l));
          Ref.Out got = run(f, a);
          String name = x.name + "," + y.name + " way " + how;
          p.trace();
          p.state(name, got);
          if (!Impl.agrees(want, got)) p.fail(name + " gave " + got + ", model says " + want);
          if (!Impl.agrees(want, run(f, a))) p.fail(name + " gave something else the second time: " + run(f, a));
          values(p, name, a, l);
          // extend
          List<Put> ext = new ArrayList<>(l);
          ext.add(PUTS.get(5));
          PUTS.get(5).f.apply(a);
          values(p, name + " extended", a, ext);
          FastPrintf g = FastPrintf.compile(fmt + "+%s");
          Ref.Out w2 = Ref.format(fmt + "+%s", models(ext));
          if (!Impl.agrees(w2, run(g, a))) p.fail(name + " extended gave " + run(g, a) + ", model says " + w2);
          if (!Impl.agrees(want, run(f, a))) p.fail(name + " extended prints differently in the short format");
          p.sample(() -> name + " -> " + got);
        });
    phase(
        "unmodifiable",
        "values() of lists of 0..4 values x " + WAYS + " ways x all mutators",
        p -> {
          int how = p.choose(WAYS);
          int n = p.choose(5);
          List<Put> l = new ArrayList<>();
          for (int i = 0; i < n; i++) l.add(PUTS.get((p.choose(4) * 29 + i * 13) % PUTS.size()));
          Args a = build(how, l);
          unmodifiable(p, "way " + how + " with " + n, a);
          values(p, "way " + how, a, l);
          p.trace();
          p.state(how, n);
        });
    phase(
        "varargs",
        "varargs overload and Args.of over all lists of 0..3 boxed values; null and nested arrays",
        p -> {
          int n = p.choose(4);
          Object[] v = new Object[n];
          Object[] vals = {"s", null, 5, -2.5, 'c', new Object[] {"in", 2}, new int[] {3}, new StringBuilder("sb"), Arrays.asList(1, 2)};
          for (int i = 0; i < n; i++) v[i] = p.pick(vals);
          String fmt = new String[] {"none", "%s", "%s %s", "%s %8s %S"}[n];
          FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(2));
          Ref.Out want = Ref.format(fmt, v);
          String g1 = f.format(v);
          String g2 = f.format(Args.of(v));
          String g3 = f.format(Args.of(Arrays.asList(v)));
          String g4 = f.format(Args.of(new LinkedHashSet<>(Arrays.asList(v))).values().size() == n ? Args.of(new LinkedHashSet<>(Arrays.asList(v))) : Args.of(v));
          p.trace();
          p.state(fmt, g1);
          for (String g : new String[] {g1, g2, g3, g4}) {
            if (!g.equals(want.text)) p.fail(Show.call(fmt, v) + " gave \"" + g + "\", model says " + want);
          }
        });
    sequentialPhase(
        "null varargs",
        "a null array is one null for the overload and for Args.of",
        p -> {
          String fmt = p.pick(new String[] {"%s", "%5s|", "%p", "%n", "%S"});
          FastPrintf f = FastPrintf.compile(fmt);
          String want = Ref.format(fmt, new Object[] {null}).text;
          p.trace();
          p.state(fmt, want);
          if (!f.format((Object[]) null).equals(want)) p.fail("format((Object[]) null) with " + fmt);
          Args a = Args.of((Object[]) null);
          if (!f.format(a).equals(want)) p.fail("Args.of((Object[]) null) with " + fmt);
          if (a.values().size() != 1 || a.values().get(0) != null) p.fail("values of null array: " + a.values());
          // later changes of the source do not matter
          Object[] src = {"one", "two"};
          List<Object> srcList = new ArrayList<>(Arrays.asList(src));
          Args b = Args.of(src);
          Args c = Args.of(srcList);
          src[0] = "changed";
          srcList.set(0, "changed");
          srcList.add("more");
          FastPrintf g = FastPrintf.compile("%s-%s");
          if (!g.format(b).equals("one-two") || !g.format(c).equals("one-two") || c.values().size() != 2) p.fail("arguments follow later changes of their source");
        });
    phase(
        "lists from one source",
        SOURCES + " kinds of source with 0..3 elements, two lists made from it in turn, every sequence of 3 extensions of either; a third list made afterwards",
        p -> {
          int kind = p.choose(SOURCES);
          int n = p.choose(4);
          Object[] elements = Arrays.copyOf(new Object[] {"s", 5, "t"}, n);
          Object source = source(kind, elements);
          if (source == null) return;
          Args[] a = {made(source), made(source)};
          List<List<Object>> m = new ArrayList<>();
          for (int i = 0; i < 2; i++) m.add(new ArrayList<>(Arrays.asList(elements)));
          StringBuilder log = new StringBuilder("source " + kind + " of " + n);
          for (int i = 0; i < 3; i++) {
            int which = p.choose(2);
            Object v = p.pick(new Object[] {"x", 7, null});
            a[which].put(v);
            m.get(which).add(v);
            log.append(" put ").append(v).append(" into ").append(which);
            for (int k = 0; k < 2; k++) {
              if (!a[k].values().equals(m.get(k))) p.fail(log + ": list " + k + " holds " + a[k].values() + ", expected " + m.get(k));
            }
          }
          Args third = made(source);
          p.trace();
          p.state(log.toString(), third.values().size());
          if (!third.values().equals(Arrays.asList(elements))) p.fail(log + ": a list made afterwards holds " + third.values());
          Args fresh = p.flip() ? Args.create() : Args.of();
          if (!fresh.values().isEmpty()) p.fail(log + ": a new list holds " + fresh.values());
        });
    phase(
        "iterables of any kind",
        "0..5 elements in iterables that can be walked once, give other elements each time or change their mind about their size",
        p -> {
          int n = p.choose(6);
          List<Object> l = new ArrayList<>();
          for (int i = 0; i < n; i++) l.add(p.pick(new Object[] {"s", 5, null}));
          int kind = p.choose(6);
          int[] walks = new int[1];
          Iterable<Object> source;
          if (kind == 0) { // the rest of an iterator
            java.util.Iterator<Object> it = l.iterator();
            source = () -> it;
          } else if (kind == 1) { // refuses to be walked again
            source =
                () -> {
                  if (walks[0]++ > 0) throw new IllegalStateException("walked already");
                  return l.iterator();
                };
          } else if (kind == 2) { // other elements each time
            source = () -> walks[0]++ > 0 ? Collections.<Object>singletonList("later").iterator() : l.iterator();
          } else { // a collection others add to and take from meanwhile
            int said = kind == 3 ? 0 : kind == 4 ? n + 3 : Math.max(0, n - 1);
            source =
                new java.util.AbstractCollection<Object>() {
                  @Override
                  public java.util.Iterator<Object> iterator() {
                    return l.iterator();
                  }

                  @Override
                  public int size() {
                    return said;
                  }
                };
          }
          Args a = Args.of(source);
          p.trace();
          p.state(kind, l.toString());
          if (!a.values().equals(l)) p.fail("an iterable of kind " + kind + " of " + l + " gave " + a.values());
          String fmt = "%s|%s|%s|%s|%s".substring(0, Math.max(0, 3 * n - 1));
          StringBuilder want = new StringBuilder();
          for (Object o : l) want.append(want.length() > 0 ? "|" : "").append(o);
          String got = FastPrintf.compile(fmt).format(a);
          if (!got.equals(want.toString())) p.fail("an iterable of kind " + kind + " of " + l + " printed " + got);
        });
    phase(
        "independent lists",
        "one list made from another in 6 ways, then every sequence of 3 extensions of either, compared with the model after each",
        p -> {
          int way = p.choose(6);
          int n = p.choose(3);
          List<Object> m1 = new ArrayList<>();
          for (int i = 0; i < n; i++) m1.add(p.pick(new Object[] {"s", 5, null}));
          List<Object> m2 = new ArrayList<>(m1);
          Args one = Args.create();
          for (Object o : m1) one.put(o);
          Args two;
          switch (way) {
            case 0:
              two = Args.of((Iterable<?>) one);
              break;
            case 1:
              two = Args.of(one.values());
              break;
            case 2:
              two = Args.of(one.values().toArray());
              break;
            case 3:
              {
                final Args src = one;
                two = Args.of((Iterable<?>) () -> src.values().iterator());
                break;
              }
            case 4:
              two = Args.create();
              for (Object t : one) two.put(t);
              break;
            default:
              {
                final Args src = one;
                Iterable<io.fastprintf.traits.FormatTraits> it = src::iterator;
                two = Args.of(it);
              }
          }
          StringBuilder log = new StringBuilder("way " + way + " with " + n);
          for (int i = 0; i < 3; i++) {
            int op = p.choose(4);
            log.append(" op ").append(op);
            Args t = op < 2 ? one : two;
            List<Object> m = op < 2 ? m1 : m2;
            Object v = op % 2 == 0 ? (Object) "new" : Integer.valueOf(i);
            if (op % 2 == 0) t.put(v);
            else t.putInt(i);
            m.add(v);
            if (!one.values().equals(m1)) p.fail(log + ": the first list holds " + one.values() + " instead of " + m1);
            if (!two.values().equals(m2)) p.fail(log + ": the second list holds " + two.values() + " instead of " + m2);
            for (int k = 0; k < 2; k++) {
              List<Object> x = k == 0 ? m1 : m2;
              StringBuilder f = new StringBuilder();
              for (int j = 0; j < x.size(); j++) f.append("%s,");
              String got = FastPrintf.compile(f.toString()).format(k == 0 ? one : two);
              String want = Ref.format(f.toString(), x.toArray()).text;
              if (!got.equals(want)) p.fail(log + ": list " + k + " prints \"" + got + "\" instead of \"" + want + "\"");
            }
          }
          p.trace();
          p.state(log.toString(), m1 + "/" + m2);
          p.sample(log::toString);
        });
    phase(
        "expected sizes",
        "createWithExpectedSize with 0..300, powers of two and negative numbers, then 0..20 values",
        p -> {
          int k = p.choose(340);
          int size = k <= 300 ? k : k <= 316 ? 1 << (k - 301) : k <= 336 ? -(1 << (k - 317)) : new int[] {-3, Integer.MIN_VALUE, -Integer.MAX_VALUE}[k - 337];
          p.trace();
          if (size < 0) {
            try {
              Args.createWithExpectedSize(size);
            } catch (IllegalArgumentException e) {
              p.state(size, "refused");
              return;
            }
            p.fail("createWithExpectedSize(" + size + ") was accepted");
          }
          int n = p.choose(21);
          Args a = Args.createWithExpectedSize(size);
          if (!a.values().isEmpty()) p.fail("createWithExpectedSize(" + size + ") is not empty: " + a.values());
          StringBuilder f = new StringBuilder();
          StringBuilder want = new StringBuilder();
          for (int i = 0; i < n; i++) {
            a.putInt(i);
            f.append("%d,");
            want.append(i).append(',');
          }
          String got = FastPrintf.compile(f.toString()).format(a);
          p.state(size, n);
          if (!got.contentEquals(want)) p.fail("expected size " + size + ", " + n + " values gave " + got);
          try {
            FastPrintf.compile(f + "%s").format(a);
          } catch (io.fastprintf.PrintfException e) {
            return;
          }
          p.fail("expected size " + size + ": one argument more than added");
        });
    phase(
        "many",
        "lists of 0..300 values, " + WAYS + " ways",
        p -> {
          int n = p.choose(301);
          int how = p.choose(WAYS);
          List<Put> l = new ArrayList<>();
          StringBuilder f = new StringBuilder();
          for (int i = 0; i < n; i++) {
            l.add(PUTS.get(i * 7 % PUTS.size()));
            f.append("%s,");
          }
          Args a = build(how, l);
          Ref.Out want = Ref.format(f.toString(), models(l));
          Ref.Out got = run(FastPrintf.compile(f.toString()), a);
          p.trace();
          p.state(n, how);
          if (!Impl.agrees(want, got)) p.fail(n + " values way " + how + " gave " + got + ", model says " + want);
          values(p, n + " values", a, l);
        });
  }
}
