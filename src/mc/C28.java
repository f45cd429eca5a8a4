package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.number.FloatForm;
import io.fastprintf.number.FloatLayout;
import io.fastprintf.number.IntForm;
import io.fastprintf.number.NumberForm;
import io.fastprintf.traits.FormatTraits;
import io.fastprintf.traits.RefSlot;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.Iterator;
import java.util.List;
import java.util.NoSuchElementException;

/** The views an argument list hands out answer as the conversions print. */
final class C28 extends Check {

  /** What can be asked of a view. */
  private static final String[] QUESTIONS = {"isNull", "asIntForm", "asFloatForm", "asString", "asInt", "asTemporalAccessor", "asChar", "ref", "asObject", "asSeq"};

  private static String sign(NumberForm f) {
    int s = f.signum();
    String t = f.isNegative() ? "-" : f.isPositive() ? "+" : f.isZero() ? "0" : "?";
    if (f.isNegative() != s < 0 || f.isPositive() != s > 0 || f.isZero() != (s == 0)) return "signum " + s + " but " + t;
    return t;
  }

  private static String integer(IntForm f) {
    StringBuilder b = new StringBuilder(sign(f)).append(' ').append(f.toDecimalString());
    for (int i = 0; i < 3; i++) {
      b.append(' ');
      try {
        b.append(i == 0 ? f.toUnsignedDecimalString() : i == 1 ? f.toHexString() : f.toOctalString());
      } catch (Throwable t) {
        b.append(Impl.formatOutcome(t, "").kind);
      }
    }
    return b.toString();
  }

  private static String floating(FloatForm f) {
    if (f.isNaN()) return f.isInfinite() ? "both" : "NaN";
    if (f.isInfinite()) return sign(f) + "infinite";
    String e = String.valueOf(f.scientificLayout(20).getMantissa());
    // the sign of a zero is that of its bits, or none
    boolean zero = new BigDecimal(e).signum() == 0;
    return (zero ? "" : sign(f) + ' ') + number(f.scientificLayout(20)) + ' ' + number(f.decimalLayout(20)) + ' ' + number(f.generalLayout(6));
  }

  /** The number a decimal layout stands for. */
  private static String number(FloatLayout l) {
    String s = String.valueOf(l.getMantissa());
    if (l.getExponent() != null) s += "e" + l.getExponent();
    try {
      BigDecimal d = new BigDecimal(s);
      return d.signum() == 0 ? "0" : d.stripTrailingZeros().toString();
    } catch (NumberFormatException e) {
      return "not a number: " + s;
    }
  }

  private static String ask(FormatTraits t, int q, Object arg) {
    try {
      switch (q) {
        case 0:
          return String.valueOf(t.isNull());
        case 1:
          return integer(t.asIntForm());
        case 2:
          return floating(t.asFloatForm());
        case 3:
          return String.valueOf(t.asString());
        case 4:
          return String.valueOf(t.asInt());
        case 5:
          return printed(t.asTemporalAccessor());
        case 6:
          return String.valueOf((int) t.asChar());
        case 7:
          RefSlot r = t.ref();
          if (r.isPrimitive()) {
            try {
              return "primitive with " + r.get();
            } catch (UnsupportedOperationException e) {
              return "primitive";
            }
          }
          return r.get() == arg ? "same" : "other";
        case 8:
          Object o = t.asObject();
          if (arg instanceof Ref.Prim) return ((Ref.Prim) arg).boxed.equals(o) ? "same" : "other";
          return o == arg ? "same" : "other";
        default:
          return t.asSeq().toString();
      }
    } catch (Throwable e) {
      Ref.Out o = Impl.formatOutcome(e, "");
      return o.kind == Ref.Kind.THROWN ? "raised " + e : "refused " + o.kind;
    }
  }

  /** How a date prints, or why not. */
  private static String printed(Object date) {
    return read(Impl.run(FastPrintf.compile("%t"), date)) + " / " + read(Impl.run(FastPrintf.compile("%t{G uuuu DDD HH}"), date));
  }

  private static String read(Ref.Out o) {
    return o.kind == Ref.Kind.OK ? o.text : String.valueOf(o.kind);
  }

  private static String refused(Ref.Out o) {
    return "refused " + o.kind;
  }

  private static BigDecimal abs(Object v) {
    return v instanceof BigDecimal ? ((BigDecimal) v).abs() : new BigDecimal(Ref.format("%.800e", Math.abs((Double) v)).text);
  }

  private static String floatWant(Object v) {
    if (v instanceof Double) {
      double d = (Double) v;
      if (Double.isNaN(d)) return "NaN";
      if (Double.isInfinite(d)) return (d < 0 ? "-" : "+") + "infinite";
    }
    BigDecimal a = abs(v);
    if (a.signum() == 0) return "0 0 0";
    boolean neg = v instanceof BigDecimal ? ((BigDecimal) v).signum() < 0 : (Double) v < 0;
    return (neg ? "- " : "+ ") + text(a.round(new MathContext(21, RoundingMode.HALF_UP))) + ' ' + text(fixed(a, 20)) + ' ' + text(a.round(new MathContext(6, RoundingMode.HALF_UP)));
  }

  private static BigDecimal fixed(BigDecimal a, int digits) {
    // far below the last digit: dividing would take forever
    if ((long) a.scale() - a.precision() > digits + 2) return BigDecimal.ZERO;
    return a.setScale(Math.min(a.scale(), digits), RoundingMode.HALF_UP);
  }

  private static String text(BigDecimal d) {
    return d.signum() == 0 ? "0" : d.stripTrailingZeros().toString();
  }

  /** What the view must answer. */
  private static String want(int q, Object arg) {
    Ref.Out o;
    switch (q) {
      case 0:
        return String.valueOf(arg == null);
      case 1:
        o = Ref.format("%d", arg);
        if (o.kind != Ref.Kind.OK) return refused(o);
        boolean neg = o.text.startsWith("-");
        String digits = neg ? o.text.substring(1) : o.text;
        String s = (neg ? "-" : digits.equals("0") ? "0" : "+") + ' ' + digits;
        for (String f : new String[] {"%u", "%x", "%o"}) {
          Ref.Out u = Ref.format(f, arg);
          s += " " + (u.kind == Ref.Kind.OK ? u.text : String.valueOf(u.kind));
        }
        return s;
      case 2:
        o = Ref.format("%e", arg);
        return o.kind == Ref.Kind.OK ? floatWant(Ref.floatValue(arg)) : refused(o);
      case 3:
      case 9:
        return Ref.format("%s", arg).text;
      case 4:
        return star(arg);
      case 5:
        o = Ref.format("%t", arg);
        if (!(arg instanceof java.time.temporal.TemporalAccessor) && (o.kind == Ref.Kind.REFUSED || o.kind == Ref.Kind.BAD_EPOCH)) return refused(o);
        return read(o) + " / " + read(Ref.format("%t{G uuuu DDD HH}", arg));
      case 6:
        o = Ref.format("%c", arg);
        return o.kind == Ref.Kind.OK ? String.valueOf((int) o.text.charAt(0)) : refused(o);
      case 7:
        return arg instanceof Ref.Prim ? "primitive" : "same";
      default:
        return "same";
    }
  }

  private static String star(Object arg) {
    // the model refuses an argument in the place of a star as a directive would
    Ref.Out o = Ref.format("%*n", arg, 0);
    if (o.kind == Ref.Kind.REFUSED && !tooWide(arg)) return refused(o);
    return String.valueOf(Ref.starInt(arg));
  }

  private static boolean tooWide(Object arg) {
    try {
      int n = Ref.starInt(arg);
      return n > 65536 || n < -65536;
    } catch (RuntimeException e) {
      return false;
    }
  }

  private static List<FormatTraits> views(Args a) {
    List<FormatTraits> l = new ArrayList<>();
    for (FormatTraits t : a) l.add(t);
    return l;
  }

  private static void check(Explorer.Path p, String how, Object arg, FormatTraits t, int... qs) {
    for (int i = 0; i < qs.length; i++) {
      String want = want(qs[i], arg);
      String got = ask(t, qs[i], arg);
      p.trace();
      p.state(qs[i], got);
      if (!want.equals(got)) {
        String before = "";
        for (int k = 0; k < i; k++) before += (k == 0 ? " after " : ", ") + QUESTIONS[qs[k]];
        p.fail("the view of " + Show.arg(arg) + how + " answers " + QUESTIONS[qs[i]] + before + " with " + Show.text(got) + ", model says " + Show.text(want));
      }
      p.sample(() -> "view of " + Show.arg(arg) + how + ": " + QUESTIONS[qs[qs.length - 1]] + " -> " + got);
    }
  }

  private static List<Object> numbers() {
    List<Object> l = new ArrayList<>();
    for (int i = -1200; i <= 1200; i++) l.add(i);
    for (int k = 7; k <= 31; k++) for (int d = -2; d <= 2; d++) {
      l.add((int) ((1L << k) + d));
      l.add((int) (-(1L << k) + d));
    }
    return l;
  }

  /** The number as one of the primitive types. */
  private static Object as(int kind, int n) {
    switch (kind) {
      case 0:
        return n;
      case 1:
        return (long) n;
      case 2:
        return (short) n;
      case 3:
        return (byte) n;
      case 4:
        return (char) n;
      case 5:
        return (float) n;
      case 6:
        return (double) n;
      default:
        return (n & 1) != 0;
    }
  }

  @Override
  void define() {
    final List<Object> args = C20.arguments();
    final int Q = QUESTIONS.length;
    phase(
        "questions",
        args.size() + " arguments of every type, boxed and primitive x all sequences of 3 out of " + Q + " questions to one view",
        p -> {
          Object v = p.pick(args);
          int[] qs = {p.choose(Q), p.choose(Q), p.choose(Q)};
          check(p, "", v, views(Impl.args(v)).get(0), qs);
        });
    phase(
        "small and boundary numbers",
        "all ints from -1200 to 1200 and around powers of two as each primitive type, put as primitive, as OrNull, boxed and in an array x all questions",
        p -> {
          int n = (Integer) p.pick(numbers());
          Object box = as(p.choose(8), n);
          int how = p.choose(3);
          Object v = how == 0 ? new Ref.Prim(box) : box;
          FormatTraits t = how == 1 ? views(Args.of(new Object[] {box})).get(0) : views(Impl.args(v)).get(0);
          for (int q = 0; q < Q; q++) check(p, how == 1 ? " in an array" : "", v, t, q);
        });
    phase(
        "views after formatting",
        args.size() + " arguments x 9 directives formatted with the list first x all questions; the same view put into a second list",
        p -> {
          Object v = p.pick(args);
          String f = p.pick(new String[] {"%s", "%S", "%d", "%x", "%f", "%.3g", "%c", "%t", "%p"});
          Args a = Impl.args(v);
          FormatTraits t = views(a).get(0);
          try {
            FastPrintf.compile(f).format(a);
          } catch (RuntimeException e) {
            // refused
          }
          int q = p.choose(Q);
          if (p.flip()) {
            check(p, " formatted by " + f, v, t, q);
          } else {
            Args b = Args.create().put(t);
            check(p, " formatted by " + f + " and put again", v, views(b).get(0), q);
          }
        });
    final List<Object> few = Arrays.<Object>asList(null, 5, new Ref.Prim(5), new Ref.Prim(-3.5), "text", 'x', new Ref.Prim(true), new BigDecimal("1.50"), C07.POINTEE, new int[] {1});
    phase(
        "lists",
        "all lists of up to 4 of 10 arguments: the views in order, two iterators used in turns, the end of the iteration",
        p -> {
          int n = p.choose(5);
          Object[] vs = new Object[n];
          for (int i = 0; i < n; i++) vs[i] = p.pick(few);
          Args a = Impl.args(vs);
          Iterator<FormatTraits> x = a.iterator();
          Iterator<FormatTraits> y = a.iterator();
          for (int i = 0; i < n; i++) {
            if (!x.hasNext() || !x.hasNext()) p.fail("only " + i + " views of " + n + " arguments");
            FormatTraits t = x.next();
            check(p, " at " + i, vs[i], t, 0, 3, 8);
            if (y.next() != t) check(p, " at " + i + " by another iterator", vs[i], t, 0, 3, 8);
          }
          if (x.hasNext() || y.hasNext()) p.fail("more views than " + n + " arguments");
          try {
            x.next();
            p.fail("a view beyond the last of " + n + " arguments");
          } catch (NoSuchElementException e) {
            // the end
          }
          p.trace();
          p.state(Arrays.toString(vs), n);
        });
    final List<Object> ints = new ArrayList<>();
    for (int k = 0; k <= 70; k++) for (int d = -3; d <= 3; d++) for (int s = 0; s < 2; s++) {
      BigInteger b = BigInteger.ONE.shiftLeft(k).add(BigInteger.valueOf(d));
      if (s == 1) b = b.negate();
      ints.add(b);
      if (b.bitLength() < 64) ints.add(b.longValue());
      if (b.bitLength() < 32) ints.add(b.intValue());
      if (b.bitLength() < 16) ints.add(b.shortValue());
      if (b.bitLength() < 8) ints.add(b.byteValue());
    }
    for (int k = 0; k <= 30; k++) for (int d = -1; d <= 1; d++) {
      BigInteger b = BigInteger.TEN.pow(k).add(BigInteger.valueOf(d));
      ints.add(b);
      ints.add(b.negate());
      if (b.bitLength() < 64) {
        ints.add(b.longValue());
        ints.add(-b.longValue());
      }
    }
    phase(
        "integer forms",
        ints.size() + " values of every integral type made into forms directly, all orders of asking twice",
        p -> {
          Object v = p.pick(ints);
          IntForm f = C27.intForm(v);
          for (int i = 0; i < 2; i++) {
            String got = integer(f);
            String want = want(1, v);
            p.trace();
            p.state(v.getClass(), got);
            if (!got.equals(want)) p.fail("the form of " + Show.arg(v) + " reads " + got + ", model says " + want);
          }
        });
    final List<Object> floats = new ArrayList<>();
    for (int e = -1074; e <= 1023; e++) {
      double d = Math.scalb(1.0, e);
      floats.add(d);
      floats.add(-Math.nextUp(d));
    }
    for (int k = -30; k <= 30; k++) for (String m : new String[] {"1", "-9.995", "1.50", "99999.5", "0.9999995", "123456789.123456789", "-4.49999999999999999999999"}) {
      BigDecimal b = new BigDecimal(m).scaleByPowerOfTen(k);
      floats.add(b);
      floats.add(b.doubleValue());
    }
    floats.addAll(Arrays.<Object>asList(0.0, -0.0, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, BigDecimal.ZERO, new BigDecimal("0E-30"), new BigDecimal("0E+30")));
    final int[] precs = {0, 1, 2, 3, 6, 9, 17, 25, 40};
    phase(
        "floating-point forms",
        floats.size() + " doubles and BigDecimals x 9 precisions: the number each layout stands for",
        p -> {
          Object v = p.pick(floats);
          int q = p.pick(precs);
          FloatForm f = C27.floatForm(v);
          String what = "the form of " + Show.arg(v);
          boolean special = v instanceof Double && !(Math.abs((Double) v) <= Double.MAX_VALUE);
          if (f.isNaN() != (v instanceof Double && ((Double) v).isNaN()) || f.isInfinite() != (v instanceof Double && ((Double) v).isInfinite())) p.fail(what + " says NaN " + f.isNaN() + ", infinite " + f.isInfinite());
          if (special) return;
          BigDecimal a = abs(v);
          if (a.signum() != 0) {
            boolean neg = v instanceof BigDecimal ? ((BigDecimal) v).signum() < 0 : (Double) v < 0;
            if (!sign(f).equals(neg ? "-" : "+")) p.fail(what + " has the sign " + sign(f));
          }
          String[] got = {number(f.decimalLayout(q)), number(f.scientificLayout(q)), number(f.generalLayout(Math.max(1, q)))};
          BigDecimal r = a.setScale(Math.min(Math.max(a.scale(), 0), q), RoundingMode.HALF_UP);
          String[] want = {text(r), text(a.round(new MathContext(q + 1, RoundingMode.HALF_UP))), text(a.round(new MathContext(Math.max(1, q), RoundingMode.HALF_UP)))};
          if (a.signum() == 0) Arrays.fill(want, "0");
          p.trace();
          p.state(q, Arrays.toString(got));
          if (!Arrays.equals(got, want)) p.fail(what + " with precision " + q + " is laid out as " + Arrays.toString(got) + ", model says " + Arrays.toString(want));
          if (f.decimalLayout(q).getExponent() != null) p.fail(what + " has an exponent in the plain layout");
          if (f.scientificLayout(q).getExponent() == null) p.fail(what + " has no exponent in the scientific layout");
          if (v instanceof Double && q >= 1 && (Double) v != 0) {
            FloatLayout h = f.hexLayout(q);
            String s = "0x" + h.getMantissa() + "p" + h.getExponent();
            double printed = Double.parseDouble(Ref.format("%." + Math.min(q, 13) + "a", Math.abs((Double) v)).text);
            if (Double.parseDouble(s) != printed) p.fail(what + " with precision " + q + " is laid out as " + s + ", model says " + Double.toHexString(printed));
          }
        });
    final List<Object> whole = Collections.unmodifiableList(args);
    phase(
        "reference slots",
        whole.size() + " objects: slots made directly",
        p -> {
          Object v = p.pick(whole);
          if (v instanceof Ref.Prim) v = ((Ref.Prim) v).boxed;
          RefSlot r = RefSlot.of(v);
          if (r.isPrimitive() || r.get() != v || r.get() != v) p.fail("the slot of " + Show.arg(v) + " is " + r.isPrimitive());
          if (RefSlot.ofNull().isPrimitive() || RefSlot.ofNull().get() != null) p.fail("the slot of null holds something");
          if (!RefSlot.ofPrimitive().isPrimitive()) p.fail("the slot of a primitive does not say so");
          p.trace();
          p.state(Show.arg(v), 0);
        });
    assumptions.add("How trailing zeros are shared between a number's layout and the formatter is not promised; layouts are compared as numbers.");
  }
}
