package mc;

import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.PrintfException;
import io.fastprintf.Specifier;
import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.ObjectInputStream;
import java.io.ObjectOutputStream;
import java.time.LocalDate;
import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.EnumSet;
import java.util.List;
import java.util.Set;
import java.util.TreeSet;

/** Contexts are immutable values with a readable pattern. */
final class C22 extends Check {

  private static final Flag[] FLAGS = {Flag.LEFT_JUSTIFY, Flag.PLUS, Flag.LEADING_SPACE, Flag.ALTERNATE, Flag.ZERO_PAD};
  private static final String CHARS = "-+ #0";
  private static final int P = FormatContext.PRECEDING;
  private static final int U = FormatContext.UNSET;
  private static final int[] SIZES = {U, 0, 1, 7, 65536, P};
  private static final int[] BAD = {65537, Integer.MAX_VALUE, -2, Integer.MIN_VALUE + 1};
  private static final DateTimeFormatter DTF = DateTimeFormatter.ofPattern("uuuu");

  /** The value a context must have. */
  static final class Value {
    final int flags;
    final int width;
    final int prec;
    final boolean dtf;

    Value(int flags, int width, int prec, boolean dtf) {
      this.flags = flags;
      this.width = width;
      this.prec = prec;
      this.dtf = dtf;
    }
  }

  private static EnumSet<Flag> set(int bits) {
    EnumSet<Flag> s = EnumSet.noneOf(Flag.class);
    for (int i = 0; i < 5; i++) if ((bits >> i & 1) != 0) s.add(FLAGS[i]);
    return s;
  }

  private static void verify(Explorer.Path p, List<String> log, FormatContext c, Value v) {
    EnumSet<Flag> f = c.getFlags();
    boolean ok = f.equals(set(v.flags)) && c.getWidth() == v.width && c.getPrecision() == v.prec && c.getDateTimeFormatter() == (v.dtf ? DTF : null)
        && c.isWidthSet() == (v.width != U) && c.isPrecisionSet() == (v.prec != U) && c.isPrecedingWidth() == (v.width == P) && c.isPrecedingPrecision() == (v.prec == P)
        && !c.hasFlag(null);
    for (int i = 0; i < 5; i++) ok &= c.hasFlag(FLAGS[i]) == ((v.flags >> i & 1) != 0);
    if (!ok) p.fail("after " + log + " a context is " + c + " instead of flags " + set(v.flags) + " width " + v.width + " precision " + v.prec);
    // the set handed out is a copy
    f.add(Flag.PLUS);
    f.remove(Flag.ZERO_PAD);
    f.clear();
  }

  /** The directive a context stands for, and the text its arguments print. */
  private static Ref.Program program(Value v, char conv) {
    Ref.Program prog = new Ref.Program();
    Ref.Dir d = new Ref.Dir();
    if (conv == '%') {
      d.literal = "%";
    } else {
      d.minus = (v.flags & 1) != 0;
      d.plus = (v.flags & 2) != 0;
      d.space = (v.flags & 4) != 0;
      d.alt = (v.flags & 8) != 0;
      d.zero = (v.flags & 16) != 0;
      d.width = v.width == U ? Ref.UNSET : v.width == P ? Ref.STAR : v.width;
      d.prec = v.prec == U ? Ref.UNSET : v.prec == P ? Ref.STAR : v.prec;
      d.conv = conv;
    }
    prog.dirs.add(d);
    return prog;
  }

  @Override
  void define() {
    final int depth = thorough ? 5 : 4;
    phase(
        "made from text",
        "all strings of up to 4 flag chars, repeated or not, and none; with default, unset, preceding, zero and largest width and precision",
        p -> {
          int n = p.choose(6) - 1;
          StringBuilder b = new StringBuilder();
          int bits = 0;
          for (int i = 0; i < n; i++) {
            int k = p.choose(5);
            b.append(CHARS.charAt(k));
            bits |= 1 << k;
          }
          String s = n < 0 ? null : b.toString();
          int[] sizes = {U, P, 0, 1, 65536};
          int w = U;
          int q = U;
          FormatContext c;
          if (p.flip()) {
            w = p.pick(sizes);
            q = p.pick(sizes);
            c = FormatContext.create(s, w, q);
          } else {
            c = FormatContext.create(s);
          }
          String what = "context of flags " + s + ", width " + w + ", precision " + q;
          if (c.getWidth() != w || c.getPrecision() != q) p.fail(what + " has width " + c.getWidth() + " and precision " + c.getPrecision());
          if (c.isWidthSet() != (w != U) || c.isPrecisionSet() != (q != U) || c.isPrecedingWidth() != (w == P) || c.isPrecedingPrecision() != (q == P)) {
            p.fail(what + " tells otherwise what is set");
          }
          for (int i = 0; i < 5; i++) if (c.hasFlag(FLAGS[i]) != ((bits >> i & 1) != 0)) p.fail(what + ": flag " + FLAGS[i] + " is " + c.hasFlag(FLAGS[i]));
          if (c.hasFlag(null) || c.getDateTimeFormatter() != null) p.fail(what + " has more than it was given");
          p.trace();
          p.state(what, 0);
        });
    phase(
        "histories",
        "all sequences of " + depth + " operations: setWidth and setPrecision with 6 legal and 4 illegal values, addFlag of 5 flags and null, changing the set handed in or out; every context so far re-read after every step",
        p -> {
          int root = p.choose(64);
          EnumSet<Flag> handed = set(root & 31);
          List<String> log = new ArrayList<>();
          List<FormatContext> cs = new ArrayList<>();
          List<Value> vs = new ArrayList<>();
          if ((root & 32) == 0) {
            cs.add(FormatContext.create(handed, 3, U, DTF));
            vs.add(new Value(root & 31, 3, U, true));
          } else {
            StringBuilder b = new StringBuilder();
            for (int i = 0; i < 5; i++) if ((root >> i & 1) != 0) b.append(CHARS.charAt(4 - i));
            int bits = 0;
            for (int i = 0; i < 5; i++) if (b.indexOf("" + CHARS.charAt(i)) >= 0) bits |= 1 << i;
            cs.add(FormatContext.create(b.toString(), U, 4));
            vs.add(new Value(bits, U, 4, false));
          }
          log.add("create " + cs.get(0));
          for (int step = 0; step < depth; step++) {
            int last = cs.size() - 1;
            // the newest or the first context
            int at = step > 0 && p.flip() ? 0 : last;
            FormatContext c = cs.get(at);
            Value v = vs.get(at);
            int op = p.choose(step < 2 ? 29 : 16);
            if (step >= 2) op = new int[] {0, 1, 5, 6, 7, 11, 12, 14, 16, 17, 18, 19, 20, 21, 24, 26}[op];
            if (op < 6) {
              cs.add(c.setWidth(SIZES[op]));
              vs.add(new Value(v.flags, SIZES[op], v.prec, v.dtf));
              log.add("c" + at + ".setWidth(" + SIZES[op] + ")");
            } else if (op < 12) {
              cs.add(c.setPrecision(SIZES[op - 6]));
              vs.add(new Value(v.flags, v.width, SIZES[op - 6], v.dtf));
              log.add("c" + at + ".setPrecision(" + SIZES[op - 6] + ")");
            } else if (op < 16) {
              log.add("c" + at + ".setWidth(" + BAD[op - 12] + ")");
              refuse(p, log, c, BAD[op - 12], true);
            } else if (op < 21) {
              cs.add(c.addFlag(FLAGS[op - 16]));
              vs.add(new Value(v.flags | 1 << (op - 16), v.width, v.prec, v.dtf));
              log.add("c" + at + ".addFlag(" + FLAGS[op - 16] + ")");
            } else if (op == 21) {
              cs.add(c.addFlag(null));
              vs.add(v);
              log.add("c" + at + ".addFlag(null)");
            } else if (op < 24) {
              log.add("handed set " + (op == 22 ? "cleared" : "filled"));
              if (op == 22) handed.clear();
              else handed.addAll(EnumSet.allOf(Flag.class));
            } else if (op == 24) {
              c.getFlags().clear();
              log.add("c" + at + ".getFlags().clear()");
            } else if (op == 25) {
              c.getFlags().addAll(EnumSet.allOf(Flag.class));
              log.add("c" + at + ".getFlags().addAll(...)");
            } else {
              log.add("c" + at + ".setPrecision(" + BAD[op - 25] + ")");
              refuse(p, log, c, BAD[op - 25], false);
            }
            for (int i = 0; i < cs.size(); i++) verify(p, log, cs.get(i), vs.get(i));
          }
          p.trace();
          p.state(log, cs.size());
          p.sample(() -> log.toString());
        });
    final int[] widths = {U, 0, 1, 2, 5, 9, 10, 100, P};
    final int[] precs = {U, 0, 1, 3, 12, 100, P};
    final Object[] args = {5, -42L, 0, 1.5, -0.001, "text", 'c', LocalDate.of(2024, 2, 29), C07.POINTEE, null, new java.math.BigDecimal("12.5")};
    phase(
        "round trip",
        "32 flag sets x " + widths.length + " widths x " + precs.length + " precisions x 21 specifiers x " + args.length + " arguments, three ways of building the context",
        p -> {
          int bits = p.choose(32);
          int w = p.pick(widths);
          int q = p.pick(precs);
          Specifier[] specs = Specifier.values();
          Specifier spec = specs[p.choose(specs.length)];
          Value v = new Value(bits, w, q, false);
          FormatContext c = FormatContext.create(set(bits), w, q, null);
          StringBuilder fl = new StringBuilder();
          for (int i = 0; i < 5; i++) if ((bits >> i & 1) != 0) fl.append(CHARS.charAt(i));
          FormatContext c2 = FormatContext.create(fl.toString(), w, q);
          FormatContext c3 = FormatContext.create("").setPrecision(q);
          for (int i = 4; i >= 0; i--) if ((bits >> i & 1) != 0) c3 = c3.addFlag(FLAGS[i]);
          c3 = c3.setWidth(w);
          String pat = c.toPatternString(spec);
          if (!pat.equals(c2.toPatternString(spec)) || !pat.equals(c3.toPatternString(spec))) p.fail("equal contexts have the patterns " + pat + ", " + c2.toPatternString(spec) + " and " + c3.toPatternString(spec));
          if (!c.toString().equals(c2.toString()) || !c.toString().equals(c3.toString())) p.fail("equal contexts are shown as " + c + ", " + c2 + " and " + c3);
          for (Specifier other : specs) {
            String fresh = FormatContext.create(set(bits), w, q, null).toPatternString(other);
            if (!c.toPatternString(other).equals(fresh)) p.fail(c + " asked for " + spec + " and then " + other + " gives the pattern " + c.toPatternString(other) + " instead of " + fresh);
          }
          if (!c.toPatternString(spec).equals(pat)) p.fail(c + " gives another pattern for " + spec + " after being asked for all");
          char conv = spec.toString().charAt(0);
          Ref.Program prog = program(v, conv);
          FastPrintf f;
          try {
            f = FastPrintf.compile(pat);
          } catch (RuntimeException e) {
            p.fail("the pattern \"" + pat + "\" of " + c + " does not compile: " + e);
            return;
          }
          for (Object a : args) {
            List<Object> l = new ArrayList<>();
            if (conv != '%') {
              if (w == P) l.add(11);
              if (q == P) l.add(2);
              l.add(a);
            }
            Ref.Out want = Ref.format(prog, l.toArray());
            Ref.Out got = Impl.run(f, l.toArray());
            p.trace();
            if (!Impl.agrees(want, got)) p.fail("the pattern \"" + pat + "\" of " + c + " formats " + l + " to " + got + ", model says " + want);
          }
          p.state(pat, c.toString());
          p.sample(() -> c + " " + spec + " -> " + pat);
        });
    phase(
        "serial form",
        "32 flag sets x 6 widths x 6 precisions written and read back as a serialized object",
        p -> {
          int bits = p.choose(32);
          int w = p.pick(SIZES);
          int q = p.pick(SIZES);
          FormatContext c = FormatContext.create(set(bits), w, q, null);
          ByteArrayOutputStream out = new ByteArrayOutputStream();
          try (ObjectOutputStream o = new ObjectOutputStream(out)) {
            o.writeObject(c);
          }
          Object r;
          try (ObjectInputStream in = new ObjectInputStream(new ByteArrayInputStream(out.toByteArray()))) {
            r = in.readObject();
          }
          List<String> log = new ArrayList<>();
          log.add("reading back " + c);
          verify(p, log, (FormatContext) r, new Value(bits, w, q, false));
          p.trace();
          p.state(bits, w + "," + q);
        });
    phase(
        "letters",
        "all 65536 chars: Flag.valueOf, Specifier.valueOf and the constants' own letters are consistent with the format language",
        p -> {
          char c = (char) (p.choose(256) << 8 | p.choose(256));
          Flag f = Flag.valueOf(c);
          Flag wantF = CHARS.indexOf(c) >= 0 ? FLAGS[CHARS.indexOf(c)] : null;
          if (f != wantF) p.fail("Flag.valueOf('" + Show.text("" + c) + "') is " + f);
          Specifier s = Specifier.valueOf(c);
          boolean known = "diuoxXfFeEgGaAcsStTnp%".indexOf(c) >= 0;
          if (known != (s != null)) p.fail("Specifier.valueOf('" + Show.text("" + c) + "') is " + s);
          if (s != null) {
            String letter = s.toString();
            if (!letter.equals(c == 'i' ? "d" : "" + c)) p.fail("the specifier of '" + c + "' is called " + letter);
            if (s.isDateTimeSpecifier() != (c == 't' || c == 'T')) p.fail("isDateTimeSpecifier of '" + c + "' is wrong");
          }
          Set<String> letters = new TreeSet<>();
          for (Specifier x : Specifier.values()) letters.add(x.toString());
          if (letters.size() != Specifier.values().length) p.fail("two specifiers share a letter: " + letters);
          p.trace();
          p.state(c, String.valueOf(s) + f);
        });
    assumptions.add("The pattern text does not carry a date formatter (there is no text to recover it from); contexts with one are checked for immutability only.");
  }

  private static void refuse(Explorer.Path p, List<String> log, FormatContext c, int n, boolean width) {
    try {
      if (width) c.setWidth(n);
      else c.setPrecision(n);
    } catch (PrintfException e) {
      return;
    }
    p.fail("after " + log + ": " + n + " was accepted");
  }
}
