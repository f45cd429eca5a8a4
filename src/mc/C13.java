package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.util.ArrayList;
import java.util.List;

/** Nested formatting from callbacks. */
final class C13 extends Check {

  static final class Inner extends RuntimeException {
    Inner() {
      super("inner", null, false, false);
    }
  }

  private static final String[] FORMATS = {"[%s]", "<%-6.4S>%d", "%s%s", "%12s|%n%%"};
  private static final int VARIANTS = 3;

  /** Formatters shared by all calls of one execution. */
  static final class World {
    final FastPrintf[][] f = new FastPrintf[FORMATS.length][VARIANTS];
    final List<String> wrong = new ArrayList<>();

    World() {
      for (int i = 0; i < FORMATS.length; i++) {
        FastPrintf base = FastPrintf.compile(FORMATS[i]);
        f[i][0] = base;
        f[i][1] = base.enableThreadLocalCache();
        f[i][2] = base.setStringBuilderInitialCapacity(1).enableThreadLocalCache();
      }
    }
  }

  /** One format call, possibly with nested calls in its arguments. */
  static final class Call {
    final World w;
    final int fmt;
    final int variant;
    final int sink;
    final Object[] args;

    Call(World w, int fmt, int variant, int sink, Object[] args) {
      this.w = w;
      this.fmt = fmt;
      this.variant = variant;
      this.sink = sink;
      this.args = args;
    }

    Ref.Out model() {
      return Ref.format(FORMATS[fmt], modelArgs());
    }

    private Object[] modelArgs() {
      Object[] a = args.clone();
      for (int i = 0; i < a.length; i++) if (a[i] instanceof Known) a[i] = ((Known) a[i]).known();
      return a;
    }

    private Object[] realArgs() {
      Object[] a = args.clone();
      for (int i = 0; i < a.length; i++) if (a[i] instanceof Known) a[i] = ((Known) a[i]).real();
      return a;
    }

    Ref.Out run() {
      FastPrintf f = w.f[fmt][variant];
      try {
        Args a = Impl.args(realArgs());
        String s;
        switch (sink) {
          case 0:
            s = f.format(a);
            break;
          case 1:
            s = f.format(new StringBuilder("pre"), a).substring(3);
            break;
          case 2:
            s = f.format(new C10.Own(true), a).got.toString();
            break;
          default:
            {
              // the sink itself formats with the same formatter on every append
              Chatty c = new Chatty(this);
              f.format(c, a);
              s = c.got.toString();
            }
        }
        return new Ref.Out(Ref.Kind.OK, s, null);
      } catch (Throwable t) {
        return Impl.formatOutcome(t, "");
      }
    }

    /** Runs and compares with the model. */
    Ref.Out checked() {
      Ref.Out want = model();
      Ref.Out got = run();
      if (!Impl.agrees(want, got)) {
        w.wrong.add(FORMATS[fmt] + " variant " + variant + " sink " + sink + " args " + describe() + " gave " + got + ", in isolation " + want);
      }
      return got;
    }

    String describe() {
      StringBuilder b = new StringBuilder("(");
      for (Object a : args) b.append(a instanceof Known ? ((Known) a).describe() : String.valueOf(a)).append(' ');
      return b.append(")").toString();
    }
  }

  static final class Chatty implements Appendable {
    final StringBuilder got = new StringBuilder();
    final Call c;

    Chatty(Call c) {
      this.c = c;
    }

    private void talk() {
      Object[] plain = {"in", 3, "x"};
      for (int v = 0; v < VARIANTS; v++) {
        new Call(c.w, c.fmt, v, 0, plain).checked();
      }
      try {
        c.w.f[c.fmt][1].format(Args.create());
        c.w.wrong.add("missing argument accepted");
      } catch (RuntimeException e) {
        // as it should
      }
    }

    @Override
    public Appendable append(CharSequence s) {
      talk();
      got.append(s);
      talk();
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      talk();
      got.append(s, a, b);
      return this;
    }

    @Override
    public Appendable append(char ch) {
      got.append(ch);
      talk();
      return this;
    }
  }

  /** An argument that formats when it is looked at. */
  static final class Known {
    final Call call;
    final int kind;
    final int mode;
    final Inner boom = new Inner();

    Known(Call call, int kind, int mode) {
      this.call = call;
      this.kind = kind;
      this.mode = mode;
    }

    String describe() {
      return "{kind " + kind + " mode " + mode + " calls " + FORMATS[call.fmt] + " variant " + call.variant + " sink " + call.sink + " " + call.describe() + "}";
    }

    /** What the argument's text is when everything works, as a plain argument. */
    Object known() {
      final Ref.Out m = call.model();
      return new Ref.Modelled() {
        @Override
        public String modelText() {
          if (mode == 2) throw boom;
          if (mode == 1) return "caught";
          if (m.kind == Ref.Kind.THROWN) throw (RuntimeException) m.thrown;
          return m.text;
        }
      };
    }

    String text() {
      if (mode == 1) {
        // an inner call that fails half-way, swallowed
        try {
          call.w.f[call.fmt][call.variant].format(Args.of("half"));
        } catch (RuntimeException e) {
          // swallowed
        }
        try {
          call.w.f[1][call.variant].format(Args.of("half", "nan"));
        } catch (RuntimeException e) {
          // swallowed
        }
        return "caught";
      }
      Ref.Out o = call.checked();
      if (mode == 2) throw boom;
      if (o.kind == Ref.Kind.THROWN && o.thrown instanceof RuntimeException) throw (RuntimeException) o.thrown;
      return o.text;
    }

    Object real() {
      if (kind == 0) {
        return new Object() {
          @Override
          public String toString() {
            return text();
          }
        };
      }
      if (kind == 1) {
        return new CharSequence() {
          @Override
          public int length() {
            return text().length();
          }

          @Override
          public char charAt(int i) {
            return text().charAt(i);
          }

          @Override
          public CharSequence subSequence(int a, int b) {
            return text().substring(a, b);
          }

          @Override
          public String toString() {
            return text();
          }
        };
      }
      // a lazy sequence writing into the builder it is handed
      String t;
      try {
        t = Ref.text(known());
      } catch (RuntimeException e) {
        t = "??";
      }
      final String expect = t;
      return Seq.lazy(
          b -> {
            if (mode == 0 && call.sink == 1) {
              FastPrintf f = call.w.f[call.fmt][call.variant];
              int before = b.length();
              f.format(b, Impl.args(call.realArgs()));
              if (!b.substring(before).equals(expect)) {
                call.w.wrong.add("nested append gave " + b.substring(before) + ", expected " + expect);
              }
            } else {
              b.append(text());
            }
          },
          expect.length());
    }
  }

  private static void finish(Explorer.Path p, World w, Call outer) {
    Ref.Out got = outer.checked();
    p.trace();
    String what = FORMATS[outer.fmt] + " variant " + outer.variant + " sink " + outer.sink + " " + outer.describe();
    p.state(what, got);
    // afterwards everything works as ever
    Object[] plain = {"after", 9, "y"};
    for (int i = 0; i < FORMATS.length; i++) {
      for (int v = 0; v < VARIANTS; v++) {
        new Call(w, i, v, 0, plain).checked();
      }
    }
    if (!w.wrong.isEmpty()) p.fail(what + ": " + w.wrong.get(0));
    p.sample(() -> what + " -> " + got);
  }

  private Call leafCall(Explorer.Path p, World w) {
    return new Call(w, p.choose(3), p.choose(VARIANTS), p.choose(2), new Object[] {"deep", 1, "z"});
  }

  // ---- every place where the product calls back

  private static final String[] SITE_FORMATS = {
    "%s", "%14s|", "%-14S|", "%.2s", "%d", "%x", "%08d|", "%f", "%g", "%c", "%t{uuuu-MM-dd}", "%T{DDD}", "%e", "%n%s"
  };

  private static final int SITES = 12;

  /** The argument that calls back, or null if the conversion refuses it; plain[0] gets its equivalent. */
  private static Object site(int k, final Runnable hook, Object[] plain) {
    final class Text implements CharSequence {
      final String s;

      Text(String s) {
        this.s = s;
      }

      @Override
      public int length() {
        hook.run();
        return s.length();
      }

      @Override
      public char charAt(int i) {
        hook.run();
        return s.charAt(i);
      }

      @Override
      public CharSequence subSequence(int a, int b) {
        hook.run();
        return s.substring(a, b);
      }

      @Override
      public String toString() {
        hook.run();
        return s;
      }
    }
    Object plainElement =
        new Object() {
          @Override
          public String toString() {
            return "elem";
          }
        };
    Object element =
        new Object() {
          @Override
          public String toString() {
            hook.run();
            return "elem";
          }
        };
    switch (k) {
      case 0:
        plain[0] = plainElement;
        return element;
      case 1:
        plain[0] = new Object[] {1, plainElement, "two", plainElement};
        return new Object[] {1, element, "two", element};
      case 2:
        plain[0] = java.util.Arrays.asList(plainElement, "x", plainElement);
        return java.util.Arrays.asList(element, "x", element);
      case 3:
        plain[0] = "12";
        return new Text("12");
      case 4:
        plain[0] = new StringBuilder("1234567890123456789");
        return new Text("1234567890123456789");
      case 5:
        {
          plain[0] = new java.util.concurrent.atomic.AtomicLong(5000000065L);
          @SuppressWarnings("serial")
          final class Num extends Number {
            @Override
            public int intValue() {
              hook.run();
              return (int) 5000000065L;
            }

            @Override
            public long longValue() {
              hook.run();
              return 5000000065L;
            }

            @Override
            public float floatValue() {
              hook.run();
              return 5000000065f;
            }

            @Override
            public double doubleValue() {
              hook.run();
              return 5000000065d;
            }

            @Override
            public String toString() {
              hook.run();
              return "5000000065";
            }
          }
          return new Num();
        }
      case 6:
        {
          plain[0] = java.time.Instant.ofEpochSecond(1700000000L).atOffset(java.time.ZoneOffset.UTC);
          final java.time.OffsetDateTime t = (java.time.OffsetDateTime) plain[0];
          return new java.time.temporal.TemporalAccessor() {
            @Override
            public boolean isSupported(java.time.temporal.TemporalField f) {
              hook.run();
              return t.isSupported(f);
            }

            @Override
            public long getLong(java.time.temporal.TemporalField f) {
              hook.run();
              return t.getLong(f);
            }

            @Override
            public <R> R query(java.time.temporal.TemporalQuery<R> q) {
              hook.run();
              return t.query(q);
            }

            @Override
            public String toString() {
              hook.run();
              return t.toString();
            }
          };
        }
      case 7:
        {
          plain[0] = new java.util.Date(1700000000000L);
          return new java.sql.Date(1700000000000L) {
            @Override
            public long getTime() {
              hook.run();
              return super.getTime();
            }

            @Override
            public String toString() {
              hook.run();
              return new java.util.Date(1700000000000L).toString();
            }
          };
        }
      case 8:
        plain[0] = "lazily";
        return Seq.lazy(
            b -> {
              hook.run();
              b.append("lazi");
              hook.run();
              b.append("ly");
            },
            6);
      case 9:
        plain[0] = "wraps lazily and more";
        return Seq.wrap("wraps ")
            .append(
                Seq.lazy(
                    b -> {
                      b.append("lazi");
                      hook.run();
                      b.append("ly");
                    },
                    6))
            .append(Seq.wrap(" and more"));
      case 10:
        plain[0] = new Object[] {new String[] {}.length, new StringBuilder("sb"), "7"};
        return new Object[] {0, new Text("sb"), "7"};
      default:
        plain[0] = new Object[][] {{}}.length == 1 ? new CharSequence[] {"a", "b"} : null;
        return new CharSequence[] {new Text("a"), new Text("b")};
    }
  }

  /** A number that calls back whenever it is asked for its value. */
  @SuppressWarnings("serial")
  static final class Calling extends Number {
    private final long v;
    private final transient Runnable hook;

    Calling(long v, Runnable hook) {
      this.v = v;
      this.hook = hook;
    }

    @Override
    public int intValue() {
      hook.run();
      return (int) v;
    }

    @Override
    public long longValue() {
      hook.run();
      return v;
    }

    @Override
    public float floatValue() {
      hook.run();
      return v;
    }

    @Override
    public double doubleValue() {
      hook.run();
      return v;
    }

    @Override
    public String toString() {
      hook.run();
      return String.valueOf(v);
    }
  }

  private static Ref.Out formatted(FastPrintf f, Args a) {
    try {
      return new Ref.Out(Ref.Kind.OK, f.format(a), null);
    } catch (Throwable t) {
      return Impl.formatOutcome(t, "");
    }
  }

  @Override
  void define() {
    final List<Corpus.Item> inner = new ArrayList<>(Corpus.items());
    inner.addAll(Corpus.failing());
    phase(
        "objects of unknown classes",
        "chains of 1 to 4 objects whose texts are formatted from the next, of one class or of several that were never used before x " + Fresh.FORMATS.length + " formats x " + Fresh.ROUTES + " routes x " + C10.VARIANTS + " variants",
        Fresh::run);
    phase(
        "callback sites",
        SITES + " kinds of calling arguments x " + SITE_FORMATS.length + " outer formats x 3 sinks x 2 variants x nested: the same format and argument, or any of " + inner.size() + " others",
        p -> {
          int k = p.choose(SITES);
          String fmt = "<" + p.pick(SITE_FORMATS) + ">%s";
          int sink = p.choose(3);
          int variant = p.choose(2);
          int in = p.choose(inner.size() + 2);
          final FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
          final Object[] plain = {null, "end"};
          final String[] wrong = {null};
          final int[] depth = {0};
          final Object[][] real = {null};
          final Corpus.Item it = in < inner.size() ? inner.get(in) : null;
          final FastPrintf g = it == null ? f : C10.variant(FastPrintf.compile(it.fmt), variant);
          final Ref.Out[] want = {null};
          Runnable hook =
              () -> {
                if (depth[0] > 0) return;
                depth[0]++;
                Ref.Out w = it == null ? want[0] : it.want();
                Ref.Out r = Impl.run(g, it == null ? in == inner.size() ? plain : real[0] : it.args);
                depth[0]--;
                if (w != null && !Impl.agrees(w, r) && wrong[0] == null) wrong[0] = "the nested call gave " + r + ", in isolation " + w;
              };
          depth[0] = 1;
          real[0] = new Object[] {site(k, hook, plain), "end"};
          if (fmt.contains("n%s")) {
            real[0] = new Object[] {"unused", real[0][0], "end"};
          }
          final Object[] model = fmt.contains("n%s") ? new Object[] {"unused", plain[0], "end"} : plain;
          final Ref.Out w = Ref.format(fmt, model);
          if (fmt.contains("n%s") && in == inner.size()) return;
          want[0] = w;
          depth[0] = 0;
          Ref.Out got;
          try {
            Args a = Impl.args(real[0]);
            String s;
            if (sink == 0) s = f.format(a);
            else if (sink == 1) s = f.format(new StringBuilder("pre"), a).substring(3);
            else s = f.format(new C10.Own(true), a).got.toString();
            got = new Ref.Out(Ref.Kind.OK, s, null);
          } catch (Throwable t) {
            got = Impl.formatOutcome(t, "");
          }
          p.trace();
          p.state(k + fmt + sink + variant + in, got);
          String name = fmt + " with calling argument " + k + " sink " + sink + " variant " + variant + ", nested " + (it == null ? "itself" : it.toString()) + ": ";
          if (wrong[0] != null) p.fail(name + wrong[0]);
          if (!Impl.agrees(w, got)) p.fail(name + "the outer call gave " + got + ", in isolation " + w);
          p.sample(() -> name + w);
        });
    final String[] stars = {"%*d|", "%.*f|", "%*.*f|", "%*s%d|", "%-*.*s|", "%0*d|%.*e", "%*.*x", "%*S%*c|", "%+*.*g"};
    final int[] starValues = {-7, 0, 3, 12};
    phase(
        "calling numbers in every place",
        stars.length + " formats with star widths and precisions, every subset of the arguments calling back x 4x4 outer and 5 nested star values, nested failing or not x 3 sinks x 3 variants",
        p -> {
          final String fmt = p.pick(stars);
          final int n = Ref.parse(fmt).dirs.stream().mapToInt(d -> d.literal != null ? 0 : 1).sum() + fmt.length() - fmt.replace("*", "").length();
          int mask = p.choose((1 << n) - 1) + 1;
          int sink = p.choose(3);
          int variant = p.choose(3);
          int outer = starValues[p.choose(4)];
          int outer2 = starValues[p.choose(4)];
          int in = p.choose(6);
          final FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
          final Object[] nested = new Object[n];
          for (int i = 0; i < n; i++) nested[i] = in == 5 && i == n - 1 ? "no number" : Integer.valueOf(in == 4 ? 21 : starValues[in % 4] + i);
          if (in == 5) nested[0] = null;
          final Ref.Out wantNested = Ref.format(fmt, nested);
          final String[] wrong = {null};
          final int[] depth = {0};
          Runnable hook =
              () -> {
                if (depth[0]++ == 0) {
                  Ref.Out r = Impl.run(f, nested);
                  if (!Impl.agrees(wantNested, r) && wrong[0] == null) wrong[0] = "the nested call gave " + r + ", in isolation " + wantNested;
                }
                depth[0]--;
              };
          Object[] real = new Object[n];
          Object[] plain = new Object[n];
          for (int i = 0; i < n; i++) {
            long v = i == n - 1 ? 65 : i == 0 ? outer : outer2;
            plain[i] = (mask >> i & 1) == 0 ? (Object) (int) v : new java.util.concurrent.atomic.AtomicLong(v);
            real[i] = (mask >> i & 1) == 0 ? (Object) (int) v : new Calling(v, hook);
          }
          Ref.Out want = Ref.format(fmt, plain);
          Ref.Out got;
          try {
            Args a = Impl.args(real);
            String s;
            if (sink == 0) s = f.format(a);
            else if (sink == 1) s = f.format(new StringBuilder("pre"), a).substring(3);
            else s = f.format(new C10.Own(true), a).got.toString();
            got = new Ref.Out(Ref.Kind.OK, s, null);
          } catch (Throwable t) {
            got = Impl.formatOutcome(t, "");
          }
          p.trace();
          p.state(fmt + mask + sink + variant + in, got);
          String name = Show.call(fmt, plain) + " calling from arguments " + Integer.toBinaryString(mask) + " sink " + sink + " variant " + variant + ", nested " + Show.call(fmt, nested) + ": ";
          if (wrong[0] != null) p.fail(name + wrong[0]);
          if (!Impl.agrees(want, got)) p.fail(name + "the outer call gave " + got + ", in isolation " + want);
          p.sample(() -> name + want);
        });
    phase(
        "one argument list for both calls",
        SITES + " kinds of calling arguments x 3 positions in the list x 8 outer formats x 3 sinks x 3 variants x nested with the same list: 7 formats, the same formatter, reading the list",
        p -> {
          int k = p.choose(SITES);
          int pos = p.choose(3);
          String fmt = p.pick(new String[] {"%s", "%s%s", "%s,%s,%s", "%9s|%-9S|%.4s", "%s%n%s", "%*s", "%s%s%s%s", "%5s%%%s%%%5s"});
          int sink = p.choose(3);
          int variant = p.choose(3);
          int in = p.choose(12);
          final String[] nested = {"", "-", "%s", "%d", "%s%s", "%s/%12s/%S", "%s%s%s%s"};
          final FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
          final String gf = in < nested.length ? nested[in] : fmt;
          final FastPrintf g = in < nested.length ? C10.variant(FastPrintf.compile(gf), variant) : f;
          final Object[] plain = {null};
          final int[] depth = {1};
          final String[] wrong = {null};
          final Args args = Args.create();
          final List<Object> model = new ArrayList<>();
          Runnable hook =
              () -> {
                if (depth[0] > 0) return;
                depth[0]++;
                Object[] m = model.toArray();
                Ref.Out want = Ref.format(gf, m);
                Ref.Out r;
                try {
                  if (in == 8) args.values().size();
                  if (in == 9) for (Object o : args) o.hashCode();
                  if (in == 10) args.iterator().next();
                  if (in == 11) args.toString();
                  r = new Ref.Out(Ref.Kind.OK, in == 7 ? f.format(new StringBuilder(), args).toString() : g.format(args), null);
                } catch (Throwable t) {
                  r = Impl.formatOutcome(t, "");
                }
                depth[0]--;
                if (!Impl.agrees(want, r) && wrong[0] == null) wrong[0] = "the nested \"" + gf + "\" gave " + r + ", in isolation " + want;
              };
          Object real = site(k, hook, plain);
          for (int i = 0; i < 3; i++) {
            if (i == pos) args.put(real);
            else args.putInt(i + 7);
            model.add(i == pos ? plain[0] : Integer.valueOf(i + 7));
          }
          Ref.Out want = Ref.format(fmt, model.toArray());
          depth[0] = 0;
          Ref.Out got;
          try {
            String s;
            if (sink == 0) s = f.format(args);
            else if (sink == 1) s = f.format(new StringBuilder("pre"), args).substring(3);
            else s = f.format(new C10.Own(true), args).got.toString();
            got = new Ref.Out(Ref.Kind.OK, s, null);
          } catch (Throwable t) {
            got = Impl.formatOutcome(t, "");
          }
          p.trace();
          p.state(k + fmt + pos + sink + variant + in, got);
          String name = fmt + " with calling argument " + k + " at " + pos + " sink " + sink + " variant " + variant + ", nested with the same list " + in + ": ";
          if (wrong[0] != null) p.fail(name + wrong[0]);
          if (!Impl.agrees(want, got)) p.fail(name + "the outer call gave " + got + ", in isolation " + want);
          depth[0] = 1;
          if (!Impl.agrees(want, formatted(f, args))) p.fail(name + "afterwards the same call gave " + formatted(f, args));
          p.sample(() -> name + want);
        });
    phase(
        "argument lists from callbacks",
        "Args.of over an Iterable that formats while it is read x all nested formats x variants",
        p -> {
          final Corpus.Item it = p.pick(inner);
          int variant = p.choose(3);
          final FastPrintf f = C10.variant(FastPrintf.compile("%s|%5d|%S"), variant);
          final FastPrintf g = C10.variant(FastPrintf.compile(it.fmt), variant);
          final String[] wrong = {null};
          final java.util.Iterator<Object> src = java.util.Arrays.<Object>asList("a", 2, "c").iterator();
          Iterable<Object> values =
              () ->
                  new java.util.Iterator<Object>() {
                    @Override
                    public boolean hasNext() {
                      nested();
                      return src.hasNext();
                    }

                    @Override
                    public Object next() {
                      nested();
                      return src.next();
                    }

                    private void nested() {
                      Ref.Out r = Impl.run(g, it.args);
                      if (!Impl.agrees(it.want(), r)) wrong[0] = "nested " + it + " gave " + r;
                      if (!f.format("x", 1, "y").equals("x|    1|Y")) wrong[0] = "nested format gave " + f.format("x", 1, "y");
                    }
                  };
          String got = f.format(Args.of(values));
          p.trace();
          p.state(it.fmt + variant, got);
          if (wrong[0] != null) p.fail(wrong[0]);
          if (!got.equals("a|    2|C")) p.fail("arguments read while formatting " + it + " gave " + got);
        });
    phase(
        "depth two",
        "outer format x variant x 4 sinks, argument 1 nests: 3 kinds of callback x 3 outcomes x format x variant x 4 sinks",
        p -> {
          int root = p.choose(FORMATS.length * VARIANTS * 4);
          World w = new World();
          int pos = p.choose(2);
          Call in = new Call(w, p.choose(FORMATS.length), p.choose(VARIANTS), p.choose(4), new Object[] {"abc", 5, "de"});
          Known k = new Known(in, p.choose(3), p.choose(3));
          Object[] args = pos == 0 ? new Object[] {k, 7, "tail"} : new Object[] {"first text, longer than sixteen", 7, k};
          int fmt = root % FORMATS.length;
          if (fmt == 2 && pos == 1) args = new Object[] {"first", k};
          finish(p, w, new Call(w, fmt, root / FORMATS.length % VARIANTS, root / FORMATS.length / VARIANTS, args));
        });
    phase(
        "depth three",
        "outer x middle (3 callbacks x 3 outcomes x formats x variants x 3 sinks) x inner (3 callbacks x 3 outcomes x 3 formats x variants x 2 sinks)",
        p -> {
          int root = p.choose(3 * VARIANTS * 3);
          World w = new World();
          Call leaf = leafCall(p, w);
          Known deep = new Known(leaf, p.choose(3), p.choose(3));
          Call mid = new Call(w, p.choose(3), p.choose(VARIANTS), p.choose(thorough ? 3 : 2), new Object[] {deep, 5, "de"});
          Known k = new Known(mid, p.choose(3), p.choose(3));
          if (!thorough && k.mode == 1 && (leaf.fmt > 0 || leaf.variant > 0 || leaf.sink > 0)) return;
          finish(p, w, new Call(w, root % 3, root / 3 % VARIANTS, root / 3 / VARIANTS, new Object[] {k, 7, "tail"}));
        });
    phase(
        "two nested arguments",
        "both arguments of an outer call nest: (kind x outcome x format x variant)^2 x outer variant x sink",
        p -> {
          int root = p.choose(VARIANTS * 4);
          World w = new World();
          Known a = new Known(new Call(w, p.choose(3), p.choose(VARIANTS), p.choose(2), new Object[] {"A", 1, "a"}), p.choose(3), p.choose(3));
          Known b = new Known(new Call(w, p.choose(3), p.choose(VARIANTS), p.choose(2), new Object[] {"B", 2, "b"}), p.choose(3), p.choose(3));
          finish(p, w, new Call(w, 2, root % VARIANTS, root / VARIANTS, new Object[] {a, b}));
        });
    phase(
        "long chains",
        "chains of 1..40 nested calls on one formatter (and 64, 65, 100, 128, 129, 257), per variant, kind of callback and outcome of the innermost",
        p -> {
          int depth = p.choose(46) + 1;
          if (depth > 40) depth = new int[] {64, 65, 100, 128, 129, 257}[depth - 41];
          int variant = p.choose(VARIANTS);
          int kind = p.pick(new int[] {0, 2});
          int mode = p.choose(3);
          int fmt = p.choose(2) == 0 ? 0 : 3;
          World w = new World();
          if (kind == 2 && mode == 2) return;
          Call c = new Call(w, fmt, variant, 0, new Object[] {"leaf", 1, "x"});
          for (int i = 0; i < depth; i++) {
            if (i > 12 && kind == 2) break;
            Known k = new Known(c, kind, i == 0 ? mode : 0);
            c = new Call(w, fmt, variant, 0, new Object[] {k, i, "x"});
          }
          finish(p, w, c);
        });
    assumptions.add("Callbacks are deterministic: an argument's length, chars and text agree whenever asked.");
  }
}
