package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.Specifier;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import io.fastprintf.traits.FormatTraits;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.EnumSet;
import java.util.List;

/** Misuse is refused by the very call, without effect. */
final class C30 extends Check {

  /** Something that must not be done. */
  interface Misuse {
    Object run() throws Throwable;
  }

  static final class Case {
    final String name;
    final Class<? extends Throwable> kind;
    final Misuse misuse;

    Case(String name, Class<? extends Throwable> kind, Misuse misuse) {
      this.name = name;
      this.kind = kind;
      this.misuse = misuse;
    }
  }

  private static final Class<NullPointerException> NPE = NullPointerException.class;
  private static final Class<IllegalArgumentException> IAE = IllegalArgumentException.class;
  private static final Class<IndexOutOfBoundsException> OUT = IndexOutOfBoundsException.class;

  /** Misuses of a formatter, with the objects that must not notice. */
  private static List<Case> formatter(FastPrintf f, Args a, StringBuilder b, C10.Own own) {
    List<Case> l = new ArrayList<>();
    l.add(new Case("compile(null)", NPE, () -> FastPrintf.compile(null)));
    l.add(new Case("format((Args) null)", NPE, () -> f.format((Args) null)));
    l.add(new Case("format((StringBuilder) null, args)", NPE, () -> f.format((StringBuilder) null, a)));
    l.add(new Case("format((Appendable) null, args)", NPE, () -> f.format((Appendable) null, a)));
    l.add(new Case("format(builder, null)", NPE, () -> f.format(b, null)));
    l.add(new Case("format(sink, null)", NPE, () -> f.format(own, null)));
    l.add(new Case("format(null, null)", NPE, () -> f.format((Appendable) null, null)));
    for (int n : new int[] {0, -1, -65536, Integer.MIN_VALUE}) {
      l.add(new Case("setStringBuilderInitialCapacity(" + n + ")", IAE, () -> f.setStringBuilderInitialCapacity(n)));
      if (n < 0) l.add(new Case("createWithExpectedSize(" + n + ")", IAE, () -> Args.createWithExpectedSize(n)));
    }
    l.add(new Case("Args.of((Iterable) null)", NPE, () -> Args.of((Iterable<?>) null)));
    l.add(new Case("context without a flag set", NPE, () -> FormatContext.create((EnumSet<Flag>) null, 1, 1, null)));
    l.add(new Case("pattern text without a conversion", NPE, () -> FormatContext.create("-").toPatternString(null)));
    return l;
  }

  /** Misuses of the sequences. */
  private static List<Case> sequences(Seq s, int[] ran) {
    List<Case> l = new ArrayList<>();
    AtomicSeq t = Seq.wrap("tail");
    l.add(new Case("wrap(null)", NPE, () -> Seq.wrap(null)));
    l.add(new Case("wrap(null, 0)", NPE, () -> Seq.wrap(null, 0)));
    l.add(new Case("wrap(null, 0, 0)", NPE, () -> Seq.wrap(null, 0, 0)));
    l.add(new Case("forArray(null)", NPE, () -> Seq.forArray(null)));
    l.add(new Case("forArray(null, 0, 0)", NPE, () -> Seq.forArray(null, 0, 0)));
    for (int n = 0; n < 4; n++) {
      final int len = n;
      l.add(new Case("lazy(null, " + n + ")", NPE, () -> Seq.lazy(null, len)));
    }
    l.add(new Case("concat(null, s)", NPE, () -> Seq.concat(null, s)));
    l.add(new Case("concat(s, null)", NPE, () -> Seq.concat(s, null)));
    l.add(new Case("append(null)", NPE, () -> s.append(null)));
    l.add(new Case("prepend(null)", NPE, () -> s.prepend(null)));
    l.add(new Case("map(null)", NPE, () -> s.map(null)));
    l.add(new Case("join(null)", NPE, () -> Seq.join(null)));
    for (int n = 1; n <= 4; n++) {
      for (int at = 0; at < n; at++) {
        AtomicSeq[] parts = new AtomicSeq[n];
        Arrays.fill(parts, t);
        parts[at] = null;
        l.add(new Case("join of " + n + " parts, the " + (at + 1) + ". null", NPE, () -> Seq.join(Arrays.asList(parts))));
      }
    }
    l.add(new Case("join of a singleton null", NPE, () -> Seq.join(Collections.<AtomicSeq>singletonList(null))));
    for (int n : new int[] {0, -1, Integer.MIN_VALUE}) {
      l.add(new Case("repeated(c, " + n + ")", IAE, () -> Seq.repeated('c', n)));
      if (n < 0) l.add(new Case("lazy(action, " + n + ")", IAE, () -> Seq.lazy(b -> ran[0]++, n)));
    }
    int[] ends = {Integer.MIN_VALUE, -1, 0, 1, 3, 4, Integer.MAX_VALUE - 1, Integer.MAX_VALUE};
    char[] chars = {'a', 'b', 'c'};
    for (int from : ends) {
      if (from < 0 || from > 3) l.add(new Case("wrap(abc, " + from + ")", OUT, () -> Seq.wrap("abc", from)));
      for (int to : ends) {
        if (from < 0 || to < from || to > 3) l.add(new Case("wrap(abc, " + from + ", " + to + ")", OUT, () -> Seq.wrap("abc", from, to)));
        // to is a length here
        if (from < 0 || to < 0 || (long) from + to > 3) l.add(new Case("forArray(abc, " + from + ", " + to + ")", OUT, () -> Seq.forArray(chars, from, to)));
      }
    }
    return l;
  }

  /** An argument that notices whatever is asked of it. */
  static final class Alert {
    int asked;

    @Override
    public String toString() {
      asked++;
      return "alert";
    }
  }

  private static void refuse(Explorer.Path p, String where, Case c) {
    Throwable got = null;
    Object made = null;
    try {
      made = c.misuse.run();
    } catch (Throwable t) {
      got = t;
    }
    p.trace();
    p.state(c.name, String.valueOf(got == null ? null : got.getClass()));
    if (got == null) p.fail(where + c.name + " is not refused but gives " + made);
    if (!c.kind.isInstance(got)) p.fail(where + c.name + " is refused with " + got + " instead of " + c.kind.getSimpleName());
    final Throwable g = got;
    p.sample(() -> where + c.name + " -> " + g);
  }

  private static final String[] FORMATS = {"", "x", "%%", "%s", "<%s>%d", "%*.*f|%s", "%n", "%S%-5s%05d"};

  private static Object[] argsFor(String fmt, Alert alert) {
    switch (fmt) {
      case "%s":
      case "%n":
        return new Object[] {alert};
      case "<%s>%d":
        return new Object[] {alert, 5};
      case "%*.*f|%s":
        return new Object[] {9, 2, 1.5, alert};
      case "%S%-5s%05d":
        return new Object[] {alert, alert, 7};
      default:
        return new Object[0];
    }
  }

  @Override
  void define() {
    final int cases = formatter(FastPrintf.compile(""), Args.create(), new StringBuilder(), new C10.Own(false)).size();
    phase(
        "formatters",
        FORMATS.length + " formats x 10 variants x all sequences of 2 of " + cases + " misuses, the formatter used before, between and after, or not",
        p -> {
          String fmt = p.pick(FORMATS);
          int variant = p.choose(C10.VARIANTS);
          FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
          Alert alert = new Alert();
          Object[] vs = argsFor(fmt, alert);
          String want = Ref.format(fmt, argsFor(fmt, new Alert())).text;
          Args a = Args.of(vs);
          StringBuilder b = new StringBuilder("before");
          C10.Own own = new C10.Own(false);
          List<Case> l = formatter(f, a, b, own);
          boolean used = p.flip();
          String where = Show.text(fmt) + " variant " + variant + (used ? " in use" : "") + ": ";
          for (int i = 0; i < 2; i++) {
            if (used && !f.format(a).equals(want)) p.fail(where + "the formatter prints something else after a refusal");
            alert.asked = 0;
            refuse(p, where, l.get(p.choose(l.size())));
            if (alert.asked != 0) p.fail(where + "the argument was asked by a refused call");
            if (!b.toString().equals("before") || own.got.length() != 0) p.fail(where + "a refused call wrote " + Show.text(b + "" + own.got));
          }
          if (!f.format(a).equals(want)) p.fail(where + "the formatter prints something else after refusals");
          if (!f.format(b, a).toString().equals("before" + want)) p.fail(where + "the builder gets something else after refusals");
          f.format(own, a);
          if (!own.got.toString().equals(want)) p.fail(where + "the sink gets something else after refusals");
          if (a.values().size() != vs.length) p.fail(where + "the argument list has changed");
        });
    final int kinds = 12;
    final int seqCases = sequences(Seq.empty(), new int[1]).size();
    phase(
        "sequences",
        kinds + " kinds of sequence x all sequences of 2 of " + seqCases + " misuses; the sequence is read afterwards",
        p -> {
          int kind = p.choose(kinds);
          Seq s = kind < 9 ? Scenes.sequence(kind) : kind == 9 ? Seq.empty() : kind == 10 ? Seq.ch('q') : Seq.concat(Seq.empty(), Seq.wrap("right"));
          String text = kind < 9 ? Scenes.sequenceText(kind) : kind == 9 ? "" : kind == 10 ? "q" : "right";
          int[] ran = new int[1];
          List<Case> l = sequences(s, ran);
          for (int i = 0; i < 2; i++) refuse(p, "sequence " + Show.text(text) + ": ", l.get(p.choose(l.size())));
          if (ran[0] != 0) p.fail("the action of a refused lazy sequence was run");
          if (!s.toString().equals(text) || s.length() != text.length()) p.fail("after refusals the sequence " + text + " reads " + s);
        });
    phase(
        "nulls that are arguments",
        "a null array, a null among arguments, every OrNull putter, through each route: each counts as one null argument",
        p -> {
          int k = p.choose(16);
          FastPrintf f = C10.variant(FastPrintf.compile(p.pick(new String[] {"%s", "[%6s]", "%S", "%.2s", "%p"})), p.choose(C10.VARIANTS));
          Args a;
          switch (k) {
            case 0:
              a = Args.of((Object[]) null);
              break;
            case 1:
              a = Args.of(new Object[] {null});
              break;
            case 2:
              a = Args.of(Collections.singletonList(null));
              break;
            case 3:
              a = Args.create().put(null);
              break;
            case 4:
              a = Args.create().putNull();
              break;
            case 5:
              a = Args.create().putBooleanOrNull(null);
              break;
            case 6:
              a = Args.create().putCharOrNull(null);
              break;
            case 7:
              a = Args.create().putByteOrNull(null);
              break;
            case 8:
              a = Args.create().putShortOrNull(null);
              break;
            case 9:
              a = Args.create().putIntOrNull(null);
              break;
            case 10:
              a = Args.create().putLongOrNull(null);
              break;
            case 11:
              a = Args.create().putFloatOrNull(null);
              break;
            case 12:
              a = Args.create().putDoubleOrNull(null);
              break;
            case 13:
              a = Args.create().putString(null).putCharSequence(null);
              break;
            case 14:
              a = Args.create().putBigInteger(null).putBigDecimal(null);
              break;
            default:
              a = Args.create().putDateTime(null);
          }
          String want = f.format(Args.create().putNull());
          String got = f.format(a);
          p.trace();
          p.state(k, got);
          if (!got.equals(want)) p.fail("a null put by way " + k + " prints " + Show.text(got) + " instead of " + Show.text(want));
          int n = k == 13 || k == 14 ? 2 : 1;
          List<Object> vs = a.values();
          if (vs.size() != n || vs.get(0) != null || vs.get(n - 1) != null) p.fail("a null put by way " + k + " is " + vs);
          for (FormatTraits t : a) if (!t.isNull()) p.fail("a null put by way " + k + " does not say so");
          if (k == 0 && !f.format((Object[]) null).equals(want)) p.fail("a null array given to format prints something else");
        });
    phase(
        "lengths of lazy sequences",
        "actions that write 0..5 chars announced as 0..5, read by 6 ways: a wrong announcement is refused by IllegalStateException when the text is read as a whole (at once if one char is announced), a right one never",
        p -> {
          int n = p.choose(6);
          int said = p.choose(6);
          String text = "abcde".substring(0, n);
          String where = n + " chars announced as " + said + ": ";
          int way = p.choose(5);
          Throwable got = null;
          String read = null;
          try {
            Seq s = Seq.lazy(b -> b.append(text), said);
            if (said == 1 && n != 1) p.fail(where + "not refused at once");
            switch (way) {
              case 0:
                read = s.toString();
                break;
              case 1:
                StringBuilder c = new StringBuilder();
                s.appendTo((Appendable) c);
                read = c.toString();
                break;
              case 2:
                read = s.upperCase().toString().toLowerCase(java.util.Locale.ROOT);
                break;
              case 3:
                read = s.subSequence(0, said).toString();
                break;
              default:
                read = said == 0 ? "" : s.charAt(said - 1) == "abcde".charAt(said - 1) ? text : "another char";
            }
          } catch (IllegalStateException e) {
            got = e;
          }
          p.trace();
          p.state(n, said);
          // no chars announced: the action is not run at all
          if (said == 0) {
            if (!"".equals(read)) p.fail(where + "reads " + read + " " + got);
          } else if (n == said) {
            if (!text.equals(read)) p.fail(where + "reads " + read + " " + got);
          } else if (got == null) {
            p.fail(where + "reads " + read);
          }
        });
    assumptions.add("Which of two wrong things given to one call is named is not promised.");
  }
}
