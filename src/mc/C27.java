package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.number.FloatForm;
import io.fastprintf.number.IntForm;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.AtomicSeqIterable;
import io.fastprintf.seq.Seq;
import io.fastprintf.traits.FormatTraits;
import io.fastprintf.traits.RefSlot;
import java.lang.reflect.Proxy;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.time.temporal.TemporalAccessor;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.Deque;
import java.util.Iterator;
import java.util.List;
import java.util.NoSuchElementException;

/** Arguments, argument lists and sequences written by the caller are used through their interfaces. */
final class C27 extends Check {

  private static final String CONV = "diuoxXfFeEgGaAcsStTp";

  static final class Mine extends RuntimeException {
    Mine(String s) {
      super(s);
    }
  }

  static final class MyError extends Error {
    MyError(String s) {
      super(s);
    }
  }

  /** The representations, in the order of the fields of Own. */
  private static final String[] REPS = {"integer", "float", "string", "star", "char", "date", "reference", "sequence"};

  /** Which representation a conversion prints. */
  static int rep(char c) {
    if ("diuoxX".indexOf(c) >= 0) return 0;
    if ("fFeEgGaA".indexOf(c) >= 0) return 1;
    if (c == 'c') return 4;
    if ("tT".indexOf(c) >= 0) return 5;
    if (c == 'p') return 6;
    return 7;
  }

  /** An argument with a different value for each representation; any of them can be made to fail. */
  static class Own implements FormatTraits {
    final Object[] v;
    final Throwable[] fail = new Throwable[REPS.length];
    final boolean ownForms;
    boolean saysNull;

    Own(boolean ownForms, Object... v) {
      this.ownForms = ownForms;
      this.v = v;
    }

    private Object get(int k) {
      if (fail[k] instanceof Error) throw (Error) fail[k];
      if (fail[k] != null) throw (RuntimeException) fail[k];
      return v[k];
    }

    @Override
    public boolean isNull() {
      return saysNull;
    }

    @Override
    public IntForm asIntForm() {
      IntForm f = intForm(get(0));
      return ownForms ? (IntForm) forward(IntForm.class, f) : f;
    }

    @Override
    public FloatForm asFloatForm() {
      FloatForm f = floatForm(get(1));
      return ownForms ? (FloatForm) forward(FloatForm.class, f) : f;
    }

    @Override
    public String asString() {
      return (String) get(2);
    }

    @Override
    public int asInt() {
      return (Integer) get(3);
    }

    @Override
    public RefSlot ref() {
      Object o = get(6);
      return o instanceof Ref.Prim ? RefSlot.ofPrimitive() : RefSlot.of(o);
    }

    @Override
    public String toString() {
      return "own" + Arrays.toString(v) + Arrays.toString(fail);
    }
  }

  /** Overrides what has a default. */
  static final class Full extends Own {
    Full(boolean ownForms, Object... v) {
      super(ownForms, v);
    }

    private Object rep(int k) {
      if (fail[k] instanceof Error) throw (Error) fail[k];
      if (fail[k] != null) throw (RuntimeException) fail[k];
      return v[k];
    }

    @Override
    public char asChar() {
      return (Character) rep(4);
    }

    @Override
    public TemporalAccessor asTemporalAccessor() {
      return (TemporalAccessor) rep(5);
    }

    @Override
    public Seq asSeq() {
      return seq((String) rep(7), v[7].hashCode());
    }

    @Override
    public Object asObject() {
      return v[7];
    }
  }

  static IntForm intForm(Object o) {
    if (o instanceof Byte) return IntForm.valueOf((Byte) o);
    if (o instanceof Short) return IntForm.valueOf((Short) o);
    if (o instanceof Integer) return IntForm.valueOf((Integer) o);
    if (o instanceof Long) return IntForm.valueOf((Long) o);
    return IntForm.valueOf((BigInteger) o);
  }

  static FloatForm floatForm(Object o) {
    if (o instanceof Double) return FloatForm.valueOf((Double) o);
    return FloatForm.valueOf((BigDecimal) o);
  }

  /** A sequence written by the caller, with only what the interface leaves open. */
  static final class OwnSeq implements AtomicSeq {
    final String s;

    OwnSeq(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public AtomicSeq subSequence(int a, int b) {
      return new OwnSeq(s.substring(a, b));
    }

    @Override
    public AtomicSeq upperCase() {
      return new OwnSeq(Ref.upper(s));
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** A composed sequence written by the caller, with only what the interface leaves open. */
  static final class OwnParts implements AtomicSeqIterable {
    final List<AtomicSeq> parts;
    final String s;

    OwnParts(List<AtomicSeq> parts, String s) {
      this.parts = parts;
      this.s = s;
    }

    /** Cuts the text at the places of the bits. */
    static OwnParts cut(String s, int places) {
      List<AtomicSeq> l = new ArrayList<>();
      int from = 0;
      for (int i = 1; i <= s.length(); i++) {
        if (i < s.length() && (places >> Math.min(31, i - 1) & 1) == 0) continue;
        String part = s.substring(from, i);
        l.add(l.size() % 2 == 0 ? new OwnSeq(part) : Seq.wrap(part));
        from = i;
      }
      return new OwnParts(l, s);
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public Iterator<AtomicSeq> iterator() {
      return parts.iterator();
    }

    @Override
    public Seq unfold(Deque<Seq> stack) {
      for (int i = parts.size() - 1; i > 0; i--) stack.push(parts.get(i));
      return parts.get(0);
    }

    @Override
    public int elementCount() {
      return parts.size();
    }

    @Override
    public String toString() {
      return s;
    }
  }

  static Seq seq(String s, int how) {
    switch (Math.floorMod(how, 4)) {
      case 0:
        return new OwnSeq(s);
      case 1:
        return Seq.wrap(s);
      case 2:
        return s.length() < 2 ? new OwnSeq(s) : Seq.concat(new OwnSeq(s.substring(0, 1)), Seq.wrap(s.substring(1)));
      default:
        return s.length() < 2 ? new OwnSeq(s) : Seq.join(Arrays.asList(Seq.wrap(s.substring(0, 1)), new OwnSeq(s.substring(1))));
    }
  }

  private static final Object POINTEE = C07.POINTEE;

  /** Values per representation; no two representations agree. */
  private static final Object[][] VALUES = {
    {-42, 1.5, "text", 6, 'q', LocalDate.of(2024, 2, 29), POINTEE, "sequence"},
    {BigInteger.TEN.pow(25).negate(), new BigDecimal("-0.00001250"), "", -7, 'ÿ', LocalDateTime.of(1999, 12, 31, 23, 59, 58), null, ""},
    {(byte) -1, -0.0, "a longer text of 24 chars", 0, '\u0000', OffsetDateTime.of(2030, 1, 2, 3, 4, 5, 6, ZoneOffset.ofHours(-9)), "pointee of its own", "another sequence, longer"},
    {(short) 0, Double.NaN, "x", 1, '一', Instant.ofEpochSecond(1), new StringBuilder(), "y"},
    {Long.MIN_VALUE, 1e300, "null", 70, '%', ZonedDateTime.of(2024, 2, 29, 1, 2, 3, 0, ZoneOffset.UTC), new Ref.Prim(5), "%d"},
  };

  /** What the conversion of an own argument must give. */
  private static Ref.Out want(String fmt, Own o, boolean full, Object... stars) {
    char c = fmt.charAt(fmt.length() - 1);
    if (c == '}') c = fmt.contains("T{") ? 'T' : 't';
    int k = rep(c);
    Object v = o.v[k];
    if (!full) {
      if (k == 4) v = new Ref.Prim((char) (int) (Integer) o.v[3]);
      if (k == 5) return new Ref.Out(Ref.Kind.REFUSED, "", null);
      if (k == 7) v = o.v[2];
    }
    List<Object> all = new ArrayList<>(Arrays.asList(stars));
    all.add(v);
    return Ref.format(fmt, all.toArray());
  }

  private static Own own(boolean full, boolean forms, Object[] v) {
    return full ? new Full(forms, v) : new Own(forms, v);
  }

  /** Puts the argument by one of four routes. */
  private static String format(FastPrintf f, int route, Object... all) {
    switch (route) {
      case 0:
        return f.format(Impl.args(all));
      case 1:
        return f.format(Args.of(Arrays.asList(all)));
      case 2:
        return f.format(all);
      default:
        return f.format(new StringBuilder(), Args.of(all)).toString();
    }
  }

  private static Ref.Out run(String fmt, int route, Object... all) {
    try {
      return new Ref.Out(Ref.Kind.OK, format(FastPrintf.compile(fmt), route, all), null);
    } catch (Throwable t) {
      return Impl.formatOutcome(t, "");
    }
  }

  /** Lists written by the caller. */
  private static final int LISTS = 7;

  static Args list(int kind, List<FormatTraits> l) {
    switch (kind) {
      case 0: // only what formatting needs
        return proxy(() -> new Iterator<FormatTraits>() {
          int i;

          @Override
          public boolean hasNext() {
            return i < l.size();
          }

          @Override
          public FormatTraits next() {
            if (i >= l.size()) throw new NoSuchElementException();
            return l.get(i++);
          }
        });
      case 1: // an unmodifiable view
        return proxy(Collections.unmodifiableList(l)::iterator);
      case 2: // put again into a list of the library
        Args a = Args.create();
        for (FormatTraits t : l) a.put(t);
        return a;
      case 3:
        return Args.of(l);
      case 4:
        return Args.of(l.toArray());
      case 5: // never ends
        return proxy(() -> new Iterator<FormatTraits>() {
          int i;

          @Override
          public boolean hasNext() {
            return true;
          }

          @Override
          public FormatTraits next() {
            if (i > l.size() + 1000) throw new AssertionError("read on and on");
            int k = i++;
            return k < l.size() ? l.get(k) : new Own(false, VALUES[0]);
          }
        });
      default: // each pass makes its elements anew
        return proxy(() -> l.stream().map(t -> (FormatTraits) forward(FormatTraits.class, t)).iterator());
    }
  }

  /** An implementation of the interface that passes everything on. */
  private static Object forward(Class<?> type, Object to) {
    return Proxy.newProxyInstance(C27.class.getClassLoader(), new Class<?>[] {type}, (self, m, a) -> {
      try {
        m.setAccessible(true);
        return m.invoke(to, a);
      } catch (java.lang.reflect.InvocationTargetException e) {
        throw e.getCause();
      }
    });
  }

  private static Args proxy(Iterable<FormatTraits> it) {
    return (Args) Proxy.newProxyInstance(C27.class.getClassLoader(), new Class<?>[] {Args.class}, (self, m, a) -> {
      switch (m.getName()) {
        case "iterator":
          return it.iterator();
        case "values":
          List<Object> l = new ArrayList<>();
          for (FormatTraits t : it) l.add(t.asObject());
          return l;
        case "forEach":
          it.forEach((java.util.function.Consumer<FormatTraits>) a[0]);
          return null;
        case "spliterator":
          return it.spliterator();
        case "toString":
          return "own list";
        default:
          throw new UnsupportedOperationException(m.getName());
      }
    });
  }

  private static List<FormatTraits> elements(Args a) {
    List<FormatTraits> l = new ArrayList<>();
    for (FormatTraits t : a) l.add(t);
    return l;
  }

  private static final String[] PROGRAMS = {
    "%d", "%s|%d", "a%db%sc%fd", "%*d", "%*.*f", "%-*s%%%.*e", "%c%x%n%o", "%s%s%s%s%s%s", "%t{yyyy}%d"
  };

  private static int args(Ref.Dir d) {
    if (d.literal != null) return 0;
    return 1 + (d.width == Ref.STAR ? 1 : 0) + (d.prec == Ref.STAR ? 1 : 0);
  }

  /** The number of arguments a program takes. */
  private static int needs(String fmt) {
    int n = 0;
    for (Ref.Dir d : Ref.parse(fmt).dirs) n += args(d);
    return n;
  }

  @Override
  void define() {
    phase("own argument", "defaults kept or overridden x forms of the library or the caller's x said to be null or not x values x conversions x flag sets x widths {none,1,9,30} x precisions {none,0,3,9} x routes", p -> {
      boolean full = p.flip();
      boolean forms = p.flip();
      Object[] v = p.pick(VALUES);
      char c = CONV.charAt(p.choose(CONV.length()));
      String flags = p.pick(FLAG_SETS);
      int w = p.pick(new Integer[] {0, 1, 9, 30});
      int prec = p.pick(new Integer[] {-1, 0, 3, 9});
      int route = p.choose(4);
      Own o = own(full, forms, v);
      o.saysNull = forms ^ p.flip();
      String fmt = directive(flags, w, prec, c);
      Ref.Out want = want(fmt, o, full);
      Ref.Out got = run(fmt, route, o);
      p.trace();
      p.state(fmt + full + forms + route + o, got);
      if (!Impl.agrees(want, got)) p.fail(fmt + " with " + o + (full ? " overriding all" : "") + " gave " + got + ", its " + REPS[rep(c)] + " is " + want);
      p.sample(() -> fmt + " with " + o + " -> " + got);
    });
    phase("own argument alone", "conversions x values: every representation but the one asked for fails; then the one asked for fails with each kind of exception, after text, through each sink and formatter variant", p -> {
      boolean full = p.flip();
      Object[] v = p.pick(VALUES);
      char c = CONV.charAt(p.choose(CONV.length()));
      String fmt = "<%" + p.pick(new String[] {"", "12", "-12.2", "+#"}) + c;
      int k = rep(c);
      int used = full ? k : k == 4 ? 3 : k == 7 ? 2 : k;
      int mode = p.choose(5 + C11.THINGS - C11.UNCHECKED);
      Own o = own(full, false, v);
      if (mode == 0) {
        for (int i = 0; i < REPS.length; i++) if (i != used && i != 6) o.fail[i] = new Mine("not asked for: " + REPS[i]);
        Ref.Out want = want(fmt, o, full);
        Ref.Out got = run(fmt, p.choose(4), o);
        p.trace();
        p.state(fmt + full + o, got);
        if (!Impl.agrees(want, got)) p.fail(fmt + " with " + o + " gave " + got + ", expected " + want);
        p.sample(() -> fmt + " with " + o + " -> " + got);
        return;
      }
      if (!full && k == 5) return; // always refused
      Throwable x = mode == 1 ? new Mine("mine") : mode == 2 ? new MyError("mine") : mode == 3 ? new PrintfException("mine") : mode == 4 ? new NullPointerException("mine") : C11.thing(mode - 5 + C11.UNCHECKED);
      o.fail[used] = x;
      FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(6));
      StringBuilder b = new StringBuilder("P");
      C10.Own a = new C10.Own(p.flip());
      int sink = p.choose(3);
      Throwable got = null;
      try {
        if (sink == 0) f.format(Args.of(o));
        else if (sink == 1) f.format(b, Args.of(o));
        else f.format(a, Args.of(o));
      } catch (Throwable t) {
        got = t;
      }
      p.trace();
      p.state(fmt + full + mode + sink, got + "" + b + a.got);
      if (got != x) p.fail(fmt + " with an argument whose " + REPS[used] + " throws " + x + " threw " + got);
      if (sink == 1 && !b.toString().equals("P<") && !b.toString().equals("P")) p.fail(fmt + " left \"" + Show.text(b.toString()) + "\"");
      if (sink == 2 && !"<".startsWith(a.got.toString())) p.fail(fmt + " left \"" + Show.text(a.got.toString()) + "\"");
      o.fail[used] = null;
      Ref.Out want = want(fmt, o, full);
      Ref.Out again;
      try {
        again = new Ref.Out(Ref.Kind.OK, f.format(Args.of(o)), null);
      } catch (Throwable t) {
        again = Impl.formatOutcome(t, "");
      }
      if (!Impl.agrees(want, again)) p.fail(fmt + " afterwards gave " + again + ", expected " + want);
      p.sample(() -> fmt + " failing " + REPS[used] + " threw " + x);
    });
    phase(
        "objects that have only a text",
        OnlyText.OBJECTS + " objects (dynamic proxies of " + OnlyText.INTERFACES.size() + " interfaces among them) that fail when anything but their text is asked for x " + OnlyText.PLACES + " places, arrays and lists among them x " + OnlyText.FORMATS.length + " formats x cached or not",
        OnlyText::run);
    phase("own star", "own argument as width, precision or both x its number from -12 to 12 and around the limit x conversions", p -> {
      int where = p.choose(3);
      int n = p.pick(STARS);
      char c = CONV.charAt(p.choose(CONV.length()));
      boolean full = p.flip();
      String fmt = "%" + (where == 1 ? "" : "*") + (where == 0 ? "" : ".*") + c;
      Object[] v = VALUES[0].clone();
      v[3] = n;
      Own o = own(full, false, v);
      Object[] stars = where == 2 ? new Object[] {n, n} : new Object[] {n};
      Own value = own(true, false, VALUES[0]);
      Object[] all = where == 2 ? new Object[] {o, o, value} : new Object[] {o, value};
      for (int i = 0; i < REPS.length; i++) if (i != 3) o.fail[i] = new Mine("not asked for: " + REPS[i]);
      Ref.Out want = want(fmt, value, true, stars);
      Ref.Out got = run(fmt, p.choose(4), all);
      p.trace();
      p.state(fmt + n + full, got);
      if (!Impl.agrees(want, got)) p.fail(fmt + " with own star " + n + " gave " + got + ", expected " + want);
      p.sample(() -> fmt + " with own star " + n + " -> " + got);
    });
    phase("failing star", "an own argument as width or precision, its number failing with each of 16 throwables x conversions x sinks x formatter variants", p -> {
      boolean width = p.flip();
      char c = CONV.charAt(p.choose(CONV.length()));
      String fmt = "<%" + (width ? "*" : ".*") + c;
      Own o = own(p.flip(), false, VALUES[0]);
      int k = p.choose(1 + C11.THINGS - C11.UNCHECKED);
      Throwable x = k == 0 ? new Mine("mine") : C11.thing(k - 1 + C11.UNCHECKED);
      o.fail[3] = x;
      FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(6));
      int sink = p.choose(3);
      StringBuilder b = new StringBuilder();
      C10.Own a = new C10.Own(false);
      Args l = Args.of(o, new Full(false, VALUES[0]));
      Throwable got = null;
      try {
        if (sink == 0) f.format(l);
        else if (sink == 1) f.format(b, l);
        else f.format(a, l);
      } catch (Throwable t) {
        got = t;
      }
      p.trace();
      p.state(fmt + k + sink, got + "" + b + a.got);
      if (got != x) p.fail(fmt + " with a star that throws " + x + " threw " + got);
      if (!"<".startsWith(b.toString()) || !"<".startsWith(a.got.toString())) p.fail(fmt + " left \"" + Show.text(b + "" + a.got) + "\"");
      p.sample(() -> fmt + " with a failing star threw " + x);
    });
    phase("own arguments in a row", "all pairs of conversions and values, the same object twice or two", p -> {
      char c = CONV.charAt(p.choose(CONV.length()));
      char d = CONV.charAt(p.choose(CONV.length()));
      Own o = new Full(false, p.pick(VALUES));
      boolean same = p.flip();
      o.saysNull = c % 2 == 0;
      Own q = same ? o : new Full(false, p.pick(VALUES));
      String fmt = "%" + c + "%" + d;
      Ref.Out a = want("%" + c, o, true);
      Ref.Out b = want("%" + d, q, true);
      Ref.Out want = a.kind != Ref.Kind.OK ? a : b.kind != Ref.Kind.OK ? b : new Ref.Out(Ref.Kind.OK, a.text + b.text, null);
      int route = p.choose(4);
      Ref.Out got = run(fmt, route, o, q);
      p.trace();
      p.state(fmt + o + q + route, got);
      if (!Impl.agrees(want, got)) p.fail(fmt + " with " + o + " and " + q + " gave " + got + ", expected " + want);
      Args l = Args.of(o, q);
      List<Object> vals = l.values();
      if (vals.size() != 2 || vals.get(0) != o.v[7] || vals.get(1) != q.v[7]) p.fail("values() of own arguments is " + vals);
      if (!(o.v[6] instanceof Ref.Prim)) {
        List<Object> byRef = Args.of(new Own(false, o.v)).values();
        if (byRef.size() != 1 || byRef.get(0) != o.v[6]) p.fail("values() of an own argument for " + o.v[6] + " is " + byRef);
      }
      List<FormatTraits> e = elements(l);
      if (e.size() != 2 || e.get(0) != o || e.get(1) != q) p.fail("the list does not hold the arguments put: " + e);
      p.sample(() -> fmt + " -> " + got);
    });
    phase("own list", "corpus x kinds of list over its elements {bare iterator, unmodifiable view, put again one by one, put again as Iterable, as array, endless, made anew on each pass} x formatter variants x twice", p -> {
      List<Corpus.Item> items = Corpus.items();
      Corpus.Item it = items.get(p.choose(items.size()));
      int kind = p.choose(LISTS);
      int var = p.choose(6);
      List<FormatTraits> l = elements(Impl.args(it.args));
      Args a = list(kind, l);
      FastPrintf f = C10.variant(FastPrintf.compile(it.fmt), var);
      Ref.Out want = it.want();
      for (int i = 0; i < 2; i++) {
        String got;
        String built;
        C10.Own sink = new C10.Own(false);
        try {
          got = f.format(a);
          built = f.format(new StringBuilder(), a).toString();
          f.format(sink, a);
        } catch (Throwable t) {
          p.fail(it + " from own list " + kind + " threw " + t);
          return;
        }
        p.trace();
        p.state(it.fmt + kind + var, got);
        if (!got.equals(want.text) || !built.equals(want.text) || !sink.got.toString().equals(want.text)) {
          p.fail(it + " from own list " + kind + " gave \"" + Show.text(got) + "\", \"" + Show.text(built) + "\" and \"" + Show.text(sink.got.toString()) + "\", expected " + want);
        }
      }
      if (kind != 5) {
        List<Object> vals = a.values();
        List<Object> orig = Impl.args(it.args).values();
        boolean same = vals.size() == orig.size();
        for (int i = 0; same && i < vals.size(); i++) {
          Object x = vals.get(i);
          same = it.args[i] instanceof Ref.Prim ? x.equals(orig.get(i)) : x == orig.get(i);
        }
        if (!same) p.fail(it + ": values() of own list " + kind + " is " + vals + ", expected " + orig);
      }
      p.sample(() -> it + " from own list " + kind);
    });
    phase("failing list", "programs x the iterator fails at its k-th element or ends there x exception kinds x sinks", p -> {
      String fmt = p.pick(PROGRAMS);
      int n = needs(fmt);
      int k = p.choose(n + 2);
      int mode = p.choose(4); // 0 ends, 1 next throws, 2 hasNext throws, 3 error
      int sink = p.choose(3);
      Throwable x = mode == 3 ? new MyError("list") : new Mine("list");
      Object[] vals = argsFor(fmt);
      List<FormatTraits> l = elements(Args.of(vals));
      Args a = proxy(() -> new Iterator<FormatTraits>() {
        int i;

        @Override
        public boolean hasNext() {
          if (mode == 0) return i < k;
          if (mode == 2 && i >= k) throw (Mine) x;
          return true;
        }

        @Override
        public FormatTraits next() {
          if (i >= k) {
            if (mode == 0) throw new NoSuchElementException();
            if (mode == 3) throw (MyError) x;
            throw (Mine) x;
          }
          FormatTraits t = i < l.size() ? l.get(i) : l.get(0);
          i++;
          return t;
        }
      });
      FastPrintf f = C10.variant(FastPrintf.compile(fmt), p.choose(6));
      StringBuilder b = new StringBuilder();
      C10.Own own = new C10.Own(false);
      String text = null;
      Throwable got = null;
      try {
        text = sink == 0 ? f.format(a) : sink == 1 ? f.format(b, a).toString() : f.format(own, a).got.toString();
      } catch (Throwable t) {
        got = t;
      }
      Ref.Out want = Ref.format(fmt, vals);
      p.trace();
      p.state(fmt + k + mode + sink, text + got);
      String at = fmt + " with a list " + (mode == 0 ? "ending" : "failing") + " at element " + k;
      if (k >= n) {
        if (!want.text.equals(text)) p.fail(at + " (not needed) gave " + text + " " + got + ", expected " + want);
      } else if (mode == 0) {
        if (!(got instanceof PrintfException)) p.fail(at + " gave " + text + " " + got);
      } else if (got != x) {
        p.fail(at + " with " + x + " gave " + text + " " + got);
      }
      if (k < n) {
        String before = Ref.format(fmt, Arrays.copyOf(vals, k)).text;
        String left = sink == 1 ? b.toString() : sink == 2 ? own.got.toString() : before;
        if (!before.startsWith(left)) p.fail(at + " left \"" + Show.text(left) + "\", expected a beginning of \"" + Show.text(before) + "\"");
      }
      final Object g = got;
      p.sample(() -> at + " -> " + g);
    });
    phase("own composed sequence", "7 texts cut at all sets of places x 5 surroundings x 4 operations x s or S x widths x precisions", p -> {
      String t = p.pick(new String[] {"a", "bC", "Xyz", "a{`b", "aBcDe", "é一\ud83d\ude00x", "aaaaaaa"});
      int places = p.choose(1 << t.length() - 1);
      Seq s = OwnParts.cut(t, places);
      String text = t;
      switch (p.choose(5)) {
        case 0:
          break;
        case 1:
          s = s.append(OwnParts.cut("pQr", 1)).append(Seq.ch('s'));
          text = text + "pQrs";
          break;
        case 2:
          s = s.prepend(Seq.repeated('p', 3));
          text = "ppp" + text;
          break;
        case 3:
          s = Seq.concat(Seq.concat(Seq.wrap("leFt"), s), OwnParts.cut("xY", 1));
          text = "leFt" + text + "xY";
          break;
        default:
          s = s.append(s).prepend(new OwnSeq("o"));
          text = "o" + text + text;
      }
      switch (p.choose(4)) {
        case 0:
          break;
        case 1:
          s = s.upperCase();
          text = Ref.upper(text);
          break;
        case 2:
          s = s.subSequence(text.length() / 2, text.length());
          text = text.substring(text.length() / 2);
          break;
        default:
          s = s.subSequence(0, text.length() - 1).upperCase();
          text = Ref.upper(text.substring(0, text.length() - 1));
      }
      String fmt = directive(p.flip() ? "-" : "", p.pick(new Integer[] {0, 5, 24}), p.pick(new Integer[] {-1, 0, 1, 4, 17}), p.flip() ? 's' : 'S');
      C16.observe(p, new C16.E(s, text, "own composed sequence \"" + Show.text(text) + "\""), true);
      Ref.Out want = Ref.format(fmt, text);
      Ref.Out got = run(fmt, p.choose(4), s);
      p.trace();
      p.state(fmt + text + places, got);
      if (!Impl.agrees(want, got)) p.fail(fmt + " of an own composed sequence \"" + Show.text(text) + "\" gave " + got + ", expected " + want);
      p.sample(() -> fmt + " -> " + got);
    });
    phase("own sequence", "texts x own sequence as argument, inside compositions of depth 2 and as representation x flags x width x precision x conversion s or S", p -> {
      String t = p.pick(new String[] {"", "a", "bC", "Xyz{`", "fifteen chars !", "sixteen chars !!", "seventeen chars !", "é一😀"});
      Seq s = new OwnSeq(t);
      String text = t;
      for (int i = 0; i < 2; i++) {
        switch (p.choose(7)) {
          case 0:
            break;
          case 1:
            s = s.append(Seq.wrap("rIght"));
            text = text + "rIght";
            break;
          case 2:
            s = s.prepend(Seq.repeated('p', 3));
            text = "ppp" + text;
            break;
          case 3:
            s = Seq.concat(s, new OwnSeq("oWn"));
            text = text + "oWn";
            break;
          case 4:
            s = s.upperCase();
            text = Ref.upper(text);
            break;
          case 5:
            if (!(s instanceof AtomicSeq)) break;
            s = Seq.join(Arrays.asList((AtomicSeq) s, new OwnSeq("jOin"), Seq.ch('j'), (AtomicSeq) s));
            text = text + "jOinj" + text;
            break;
          default:
            if (text.length() < 2) break;
            s = s.subSequence(1, text.length());
            text = text.substring(1);
        }
      }
      char c = p.flip() ? 's' : 'S';
      String fmt = directive(p.flip() ? "-" : "", p.pick(new Integer[] {0, 5, 24}), p.pick(new Integer[] {-1, 0, 1, 4, 17}), c);
      C16.observe(p, new C16.E(s, text, "own sequence \"" + Show.text(text) + "\""), false);
      Ref.Out want = Ref.format(fmt, text);
      Ref.Out got = run(fmt, p.choose(4), s);
      p.trace();
      p.state(fmt + text, got);
      if (!Impl.agrees(want, got)) p.fail(fmt + " of an own sequence \"" + Show.text(text) + "\" gave " + got + ", expected " + want);
      String w = want.text;
      C10.Own sink = new C10.Own(true);
      try {
        FastPrintf.compile(fmt).format(sink, Args.of(s));
      } catch (Throwable x) {
        p.fail(fmt + " of an own sequence threw " + x);
      }
      if (!sink.got.toString().equals(w)) p.fail(fmt + " of an own sequence wrote " + Show.text(sink.got.toString()) + ", expected " + want);
      p.sample(() -> fmt + " -> " + got);
    });
  }

  private static final Integer[] STARS = stars();

  private static Integer[] stars() {
    List<Integer> l = new ArrayList<>();
    for (int i = -12; i <= 12; i++) l.add(i);
    for (int d = -1; d <= 1; d++) {
      l.add(Ref.LIMIT + d);
      l.add(-Ref.LIMIT + d);
    }
    l.add(Integer.MAX_VALUE);
    l.add(Integer.MIN_VALUE);
    return l.toArray(new Integer[0]);
  }

  private static Object[] argsFor(String fmt) {
    List<Object> l = new ArrayList<>();
    for (Ref.Dir d : Ref.parse(fmt).dirs) {
      for (int i = 1; i < args(d); i++) l.add(4);
      if (args(d) > 0) l.add(d.conv == 't' ? (Object) LocalDate.of(2024, 2, 29) : "fe".indexOf(d.conv) >= 0 ? 2.5 : d.conv == 'c' ? 'c' : d.conv == 's' ? "str" : (Object) 17);
    }
    return l.toArray();
  }
}
