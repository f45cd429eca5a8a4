package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.Specifier;
import io.fastprintf.appender.Appender;
import io.fastprintf.appender.DefaultAppender;
import io.fastprintf.appender.FixedStringAppender;
import io.fastprintf.seq.Seq;
import io.fastprintf.traits.FormatTraits;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.ZoneOffset;
import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.EnumSet;
import java.util.Iterator;
import java.util.List;
import java.util.function.Consumer;

/** The parts of a format, used directly, behave like the compiled directive. */
final class C29 extends Check {

  private static final String CONV = "diuoxXfFeEgGaAcsStTpn";
  private static final String FLAGS = "-+ #0";
  private static final int U = FormatContext.UNSET;
  private static final int P = FormatContext.PRECEDING;

  private static Flag flag(char c) {
    switch (c) {
      case '-':
        return Flag.LEFT_JUSTIFY;
      case '+':
        return Flag.PLUS;
      case ' ':
        return Flag.LEADING_SPACE;
      case '#':
        return Flag.ALTERNATE;
      case '0':
        return Flag.ZERO_PAD;
      default:
        return null;
    }
  }

  private static EnumSet<Flag> set(String flags) {
    EnumSet<Flag> s = EnumSet.noneOf(Flag.class);
    for (int i = 0; i < flags.length(); i++) s.add(flag(flags.charAt(i)));
    return s;
  }

  private static Ref.Program program(String flags, int width, int prec, char conv) {
    Ref.Program prog = new Ref.Program();
    Ref.Dir d = new Ref.Dir();
    d.minus = flags.indexOf('-') >= 0;
    d.plus = flags.indexOf('+') >= 0;
    d.space = flags.indexOf(' ') >= 0;
    d.alt = flags.indexOf('#') >= 0;
    d.zero = flags.indexOf('0') >= 0;
    d.width = width == U ? Ref.UNSET : width == P ? Ref.STAR : width;
    d.prec = prec == U ? Ref.UNSET : prec == P ? Ref.STAR : prec;
    d.conv = conv == 'i' ? 'd' : conv;
    prog.dirs.add(d);
    return prog;
  }

  /** Counts what is taken. */
  static final class Counting implements Iterator<FormatTraits> {
    final Iterator<FormatTraits> it;
    int taken;

    Counting(Iterator<FormatTraits> it) {
      this.it = it;
    }

    @Override
    public boolean hasNext() {
      return it.hasNext();
    }

    @Override
    public FormatTraits next() {
      taken++;
      return it.next();
    }
  }

  /** What an appender delivers. */
  private static Ref.Out deliver(Appender a, Iterator<FormatTraits> it, boolean late) {
    StringBuilder b = new StringBuilder();
    List<Seq> parts = new ArrayList<>();
    Consumer<Seq> c = late ? parts::add : s -> s.appendTo(b);
    try {
      a.append(c, it);
    } catch (Throwable t) {
      for (Seq s : parts) s.appendTo(b);
      return Impl.formatOutcome(t, b.toString());
    }
    for (Seq s : parts) b.append(s);
    return new Ref.Out(Ref.Kind.OK, b.toString(), null);
  }

  private static final List<Object> ARGS = Arrays.<Object>asList(
      0, -42, new Ref.Prim(7), Long.MIN_VALUE, new BigInteger("123456789012345678901234567890"), 1.5, -0.0, Double.NaN, Double.NEGATIVE_INFINITY, 12345.678f, new BigDecimal("-0.00125"), "text", "", "65", 'x',
      new Ref.Prim(true), null, new StringBuilder("builder"), LocalDate.of(2024, 2, 29), Instant.ofEpochSecond(1), C07.POINTEE, new int[] {1, 2});

  @Override
  void define() {
    phase(
        "chars",
        "every char as flag and as conversion",
        p -> {
          char c = (char) p.choose(65536);
          Flag f = Flag.valueOf(c);
          if (f != flag(c)) p.fail("the flag of char " + (int) c + " is " + f);
          Specifier s = Specifier.valueOf(c);
          if ((s != null) != ((CONV + "%").indexOf(c) >= 0)) p.fail("the conversion of char " + (int) c + " is " + s);
          p.trace();
          p.state(String.valueOf(f), String.valueOf(s));
          if (s == null) return;
          String text = c == 'i' ? "d" : String.valueOf(c);
          if (!s.toString().equals(text)) p.fail("the conversion of " + c + " is " + s);
          if (s.isDateTimeSpecifier() != (c == 't' || c == 'T')) p.fail("whether " + c + " is a date conversion: " + s.isDateTimeSpecifier());
          if (Specifier.valueOf(s.name()) != s) p.fail("the conversion of " + c + " is not found by its name");
        });
    final int[] sizes = {U, 0, 1, 7, 40, P};
    final Object[] stars = {5, -9, 0, new Ref.Prim(30L), "12"};
    phase(
        "appenders",
        "32 flag sets x 6 widths x 6 precisions (star included) x " + CONV.length() + " conversions x " + ARGS.size() + " arguments x 5 star values (2 if both): text delivered, arguments taken, getters; read at once and later",
        p -> {
          String flags = p.pick(FLAG_SETS);
          int w = p.pick(sizes);
          int q = p.pick(sizes);
          char conv = CONV.charAt(p.choose(CONV.length()));
          List<Object> all = new ArrayList<>();
          if (w == P) all.add(stars[p.choose(q == P ? 2 : 5)]);
          if (q == P) all.add(stars[p.choose(w == P ? 2 : 5)]);
          int need = all.size() + 1;
          all.add(p.pick(ARGS));
          all.add("surplus");
          Object[] vs = all.toArray();
          FormatContext ctx = FormatContext.create(set(flags), w, q, null);
          Specifier spec = Specifier.valueOf(conv);
          DefaultAppender a = new DefaultAppender(spec, ctx);
          String what = "appender of " + conv + " with flags '" + flags + "', width " + w + ", precision " + q + " and " + show(vs);
          Ref.Program prog = program(flags, w, q, conv);
          Ref.Out want = Ref.format(prog, vs);
          for (int i = 0; i < 2; i++) {
            Counting it = new Counting(Impl.args(vs).iterator());
            Ref.Out got = deliver(a, it, i == 1);
            p.trace();
            p.state(ctx.toPatternString(spec), got);
            if (!Impl.agrees(want, got)) p.fail(what + " delivers " + got + ", model says " + want);
            if (got.kind == Ref.Kind.OK && it.taken != need) p.fail(what + " takes " + it.taken + " arguments instead of " + need);
            if (got.kind != Ref.Kind.OK && !got.text.isEmpty()) p.fail(what + " delivers " + Show.text(got.text) + " before it refuses");
          }
          if (a.getSpecifier() != spec || !same(a.getContext(), ctx)) p.fail(what + " reports " + a.getSpecifier() + " and " + a.getContext());
          if (!a.toString().equals(ctx.toPatternString(spec))) p.fail(what + " calls itself " + a);
          p.sample(() -> what + " -> " + want);
        });
    phase(
        "missing arguments",
        "32 flag sets x 6 widths x 6 precisions x " + CONV.length() + " conversions x all numbers of arguments too small",
        p -> {
          String flags = p.pick(FLAG_SETS);
          int w = p.pick(sizes);
          int q = p.pick(sizes);
          char conv = CONV.charAt(p.choose(CONV.length()));
          int need = 1 + (w == P ? 1 : 0) + (q == P ? 1 : 0);
          int n = p.choose(need);
          Object[] vs = new Object[n];
          Arrays.fill(vs, 5);
          DefaultAppender a = new DefaultAppender(Specifier.valueOf(conv), FormatContext.create(set(flags), w, q, null));
          Ref.Out got = deliver(a, Impl.args(vs).iterator(), false);
          p.trace();
          p.state(a.toString(), n);
          if (got.kind != Ref.Kind.REFUSED || !got.text.isEmpty()) p.fail("appender " + a + " with " + n + " arguments gave " + got);
        });
    final DateTimeFormatter[] fmts = {
      DateTimeFormatter.ofPattern("uuuu"), DateTimeFormatter.ISO_LOCAL_DATE, DateTimeFormatter.ofPattern("'a''b' dd.MM"), DateTimeFormatter.ISO_ORDINAL_DATE.withZone(ZoneOffset.ofHours(9)), DateTimeFormatter.ISO_INSTANT
    };
    final List<Object> dates = Arrays.<Object>asList(LocalDate.of(2024, 2, 29), LocalDateTime.of(1999, 12, 31, 23, 59, 58), LocalDateTime.of(2024, 2, 29, 1, 2, 3).atOffset(ZoneOffset.ofHours(-5)), LocalDateTime.of(-5, 2, 28, 1, 2).atZone(ZoneOffset.UTC));
    phase(
        "date formatters",
        "5 formatters, as no pattern may write them, x 4 dates x t and T x flag sets x widths x precisions, contexts derived in every order",
        p -> {
          DateTimeFormatter f = p.pick(fmts);
          Object v = p.pick(dates);
          char conv = p.flip() ? 'T' : 't';
          String flags = p.pick(FLAG_SETS);
          int w = p.pick(sizes);
          int q = p.pick(sizes);
          int order = p.choose(3);
          FormatContext c;
          if (order == 0) {
            c = FormatContext.create(set(flags), w, q, f);
          } else {
            c = FormatContext.create(EnumSet.noneOf(Flag.class), U, U, f);
            if (order == 1) c = c.setWidth(w).setPrecision(q);
            for (int i = 0; i < flags.length(); i++) c = c.addFlag(flag(flags.charAt(i)));
            if (order == 2) c = c.setPrecision(q).setWidth(w);
          }
          List<Object> all = new ArrayList<>();
          int width = w;
          if (w == P) {
            width = 20;
            all.add(20);
          }
          if (q == P) all.add(3);
          all.add(v);
          Ref.Out got = deliver(new DefaultAppender(Specifier.valueOf(conv), c), Impl.args(all.toArray()).iterator(), false);
          String what = "date appender with " + f + ", flags '" + flags + "', width " + w + ", precision " + q + " and " + v;
          String text;
          try {
            text = f.format((java.time.temporal.TemporalAccessor) v);
          } catch (java.time.DateTimeException e) {
            p.trace();
            p.state(f, got.kind);
            if (got.kind != Ref.Kind.DATE) p.fail(what + " delivers " + got + " although the formatter refuses");
            return;
          }
          // a text in the place of the date tells what width and flags make of it
          Ref.Program prog = program(flags, width, U, conv == 't' ? 's' : 'S');
          Ref.Out want = Ref.format(prog, text);
          p.trace();
          p.state(f, got);
          if (!Impl.agrees(want, got)) p.fail(what + " delivers " + got + ", model says " + want);
          p.sample(() -> what + " -> " + got);
        });
    phase(
        "fixed texts",
        "all strings of up to 5 of 11 chars, percent signs, quotes and control chars among them: delivered as they are, no argument taken",
        p -> {
          int n = p.choose(6);
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < n; i++) b.append("a%\"\\\n\t\r\b{é\ud83d".charAt(p.choose(11)));
          String s = b.toString();
          FixedStringAppender a = new FixedStringAppender(s);
          Counting it = new Counting(Impl.args(1, 2).iterator());
          Ref.Out got = deliver(a, it, p.flip());
          p.trace();
          p.state(s, got);
          if (got.kind != Ref.Kind.OK || !got.text.equals(s)) p.fail("fixed text " + Show.text(s) + " is delivered as " + got);
          if (it.taken != 0) p.fail("fixed text " + Show.text(s) + " takes " + it.taken + " arguments");
          if (!a.getValue().equals(s)) p.fail("fixed text " + Show.text(s) + " reports " + Show.text(a.getValue()));
          Ref.Out none = deliver(a, Collections.<FormatTraits>emptyIterator(), false);
          if (!s.equals(none.text)) p.fail("fixed text " + Show.text(s) + " without arguments is delivered as " + none);
        });
    final char[] few = {'d', 'x', 'f', 'S', 'c', 't'};
    phase(
        "one appender used again",
        "all sequences of 3 arguments (star values included) of 8 on one appender of 6 conversions with star or written width and precision; a collector that fails in between",
        p -> {
          char conv = few[p.choose(few.length)];
          int w = p.pick(new int[] {U, 9, P});
          int q = p.pick(new int[] {U, 2, P});
          String flags = p.pick(new String[] {"", "0", "-+"});
          DefaultAppender a = new DefaultAppender(Specifier.valueOf(conv), FormatContext.create(set(flags), w, q, null));
          int failAt = p.choose(4);
          for (int k = 0; k < 3; k++) {
            int x = p.choose(8);
            List<Object> all = new ArrayList<>();
            if (w == P) all.add(new int[] {4, -12, 0, 7, 20, -3, 1, 13}[x]);
            if (q == P) all.add(new int[] {1, 0, -1, 5, 3, 9, 2, 7}[x]);
            all.add(Arrays.<Object>asList(0, -42, 1.5, "65", 'x', 7L, Instant.ofEpochSecond(5), new BigDecimal("12.3456")).get(x));
            Object[] vs = all.toArray();
            Ref.Out want = Ref.format(program(flags, w, q, conv), vs);
            if (k == failAt) {
              IllegalStateException mine = new IllegalStateException("mine");
              try {
                a.append(s -> {
                  throw mine;
                }, Impl.args(vs).iterator());
                if (want.kind == Ref.Kind.OK) p.fail("the failure of a collector is lost by " + a);
              } catch (Throwable t) {
                if (want.kind == Ref.Kind.OK && t != mine) p.fail("the failure of a collector becomes " + t + " in " + a);
              }
              continue;
            }
            Ref.Out got = deliver(a, Impl.args(vs).iterator(), p.flip());
            p.trace();
            p.state(a.toString(), got);
            if (!Impl.agrees(want, got)) p.fail("appender " + a + " used for the " + (k + 1) + ". time with " + show(vs) + " delivers " + got + ", model says " + want);
          }
        });
    phase(
        "refused parts",
        "null conversions, contexts and texts",
        p -> {
          int k = p.choose(4);
          try {
            Object o = k == 0 ? new DefaultAppender(null, FormatContext.create("")) : k == 1 ? new DefaultAppender(Specifier.STRING, null) : k == 2 ? new FixedStringAppender(null) : FormatContext.create(null, U, U, null);
            p.fail("made from null: " + o);
          } catch (NullPointerException e) {
            p.trace();
            p.state(k, 0);
          }
        });
    assumptions.add("The conversion '%' takes an argument when used directly and is left out.");
  }

  private static String show(Object... vs) {
    List<String> l = new ArrayList<>();
    for (Object v : vs) l.add(Show.arg(v));
    return l.toString();
  }

  private static boolean same(FormatContext a, FormatContext b) {
    return a == b || a.getFlags().equals(b.getFlags()) && a.getWidth() == b.getWidth() && a.getPrecision() == b.getPrecision() && a.getDateTimeFormatter() == b.getDateTimeFormatter();
  }
}
