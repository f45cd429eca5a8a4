package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.time.DateTimeException;

/** Runs the product and classifies what it does, in the model's terms. */
final class Impl {
  private Impl() {}

  static Args args(Object... values) {
    Args a = Args.create();
    for (Object v : values) put(a, v);
    return a;
  }

  static void put(Args a, Object v) {
    if (v instanceof Ref.Prim) {
      Object b = ((Ref.Prim) v).boxed;
      if (b instanceof Integer) a.putInt((Integer) b);
      else if (b instanceof Long) a.putLong((Long) b);
      else if (b instanceof Short) a.putShort((Short) b);
      else if (b instanceof Byte) a.putByte((Byte) b);
      else if (b instanceof Character) a.putChar((Character) b);
      else if (b instanceof Boolean) a.putBoolean((Boolean) b);
      else if (b instanceof Float) a.putFloat((Float) b);
      else if (b instanceof Double) a.putDouble((Double) b);
      else throw new AssertionError(b);
    } else {
      a.put(v);
    }
  }

  static Ref.Out compileOutcome(Throwable t) {
    if (t instanceof PrintfSyntaxException) return new Ref.Out(Ref.Kind.SYNTAX, "", t);
    if (t instanceof PrintfException) return new Ref.Out(Ref.Kind.TOO_BIG, "", t);
    return new Ref.Out(Ref.Kind.THROWN, "", t);
  }

  static Ref.Out formatOutcome(Throwable t, String text) {
    if (t instanceof PrintfException) return new Ref.Out(Ref.Kind.REFUSED, text, t);
    if (t instanceof DateTimeException) return new Ref.Out(Ref.Kind.DATE, text, t);
    if (t.getClass() == IllegalArgumentException.class) {
      return new Ref.Out(Ref.Kind.BAD_EPOCH, text, t);
    }
    return new Ref.Out(Ref.Kind.THROWN, text, t);
  }

  static Ref.Out run(String fmt, Object... values) {
    FastPrintf f;
    try {
      f = FastPrintf.compile(fmt);
    } catch (Throwable t) {
      return compileOutcome(t);
    }
    return run(f, values);
  }

  static Ref.Out run(FastPrintf f, Object... values) {
    try {
      return new Ref.Out(Ref.Kind.OK, f.format(args(values)), null);
    } catch (Throwable t) {
      return formatOutcome(t, "");
    }
  }

  static boolean agrees(Ref.Out want, Ref.Out got) {
    if (want.kind == Ref.Kind.SYNTAX_OR_TOO_BIG) {
      return got.kind == Ref.Kind.SYNTAX || got.kind == Ref.Kind.TOO_BIG;
    }
    if (want.kind != got.kind) return false;
    if (want.kind == Ref.Kind.OK) return want.text.equals(got.text);
    if (want.kind == Ref.Kind.THROWN) return want.thrown == got.thrown;
    return true;
  }

  /** The standard step: run the product, compare with the model, record. */
  static void check(Explorer.Path p, String fmt, Object... values) {
    Ref.Out want = Ref.format(fmt, values);
    Ref.Out got = run(fmt, values);
    p.trace();
    p.state(fmt, got);
    if (!agrees(want, got)) {
      p.fail(Show.call(fmt, values) + " gave " + got + ", model says " + want);
    }
    p.sample(() -> Show.call(fmt, values) + " -> " + got);
  }
}
