package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.io.IOException;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Failing sinks and failing arguments. */
final class C11 extends Check {

  static final class SinkIO extends IOException {
    SinkIO() {
      super("sink");
    }
  }

  static final class SinkUnchecked extends RuntimeException {}

  static final class SinkError extends Error {}

  static final int KINDS = 4;

  /** Accepts calls until the fail-th one, then throws on it. */
  static final class Faulty implements Appendable {
    final StringBuilder got = new StringBuilder();
    final int failAt;
    final int kind;
    final boolean partial;
    Throwable given;
    Throwable thrown;
    int calls;
    boolean after;

    Faulty(int failAt, int kind, boolean partial) {
      this.failAt = failAt;
      this.kind = kind;
      this.partial = partial;
    }

    private void tick(CharSequence s, int a, int b) throws IOException {
      if (thrown != null) after = true;
      if (calls++ == failAt) {
        if (partial && b > a) got.append(s, a, a + (b - a) / 2);
        if (given != null) {
          thrown = given;
          C11.<RuntimeException>sneak(given);
        }
        switch (kind) {
          case 0:
            {
              IOException e = new SinkIO();
              thrown = e;
              throw e;
            }
          case 1:
            {
              RuntimeException e = new SinkUnchecked();
              thrown = e;
              throw e;
            }
          case 2:
            {
              Error e = new SinkError();
              thrown = e;
              throw e;
            }
          default:
            {
              RuntimeException e = new java.nio.BufferOverflowException();
              thrown = e;
              throw e;
            }
        }
      }
      got.append(s, a, b);
    }

    @Override
    public Appendable append(CharSequence s) throws IOException {
      tick(s, 0, s.length());
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) throws IOException {
      tick(s, a, b);
      return this;
    }

    @Override
    public Appendable append(char c) throws IOException {
      tick(String.valueOf(c), 0, 1);
      return this;
    }
  }

  private static String plain(FastPrintf f, Args a) throws IOException {
    Faulty ok = new Faulty(-1, 0, false);
    f.format(ok, a);
    return ok.got.toString();
  }

  private static void fault(Explorer.Path p, Corpus.Item it, int var, int kind, boolean partial, int maxPoints) throws IOException {
    FastPrintf f = C10.variant(FastPrintf.compile(it.fmt), var);
    String want = it.want().text;
    Args a = Impl.args(it.args);
    Faulty probe = new Faulty(-1, 0, false);
    f.format(probe, a);
    int calls = probe.calls;
    if (calls == 0) return;
    int points = Math.min(calls, maxPoints);
    int at = p.choose(points);
    if (at >= points / 2) at = calls - (points - at); // both ends when there are very many
    Faulty bad = new Faulty(at, kind, partial);
    Throwable seen = null;
    try {
      f.format(bad, a);
    } catch (Throwable t) {
      seen = t;
    }
    String where = it + " variant " + var + ", append " + at + " of " + calls + " failing with kind " + kind + ": ";
    p.trace();
    p.state(it.fmt + kind, bad.got.toString());
    if (seen == null) p.fail(where + "no exception");
    if (kind == 0) {
      if (seen == bad.thrown || seen.getCause() != bad.thrown || !(seen instanceof RuntimeException)) {
        p.fail(where + "threw " + seen + " caused by " + seen.getCause());
      }
    } else if (seen != bad.thrown) {
      p.fail(where + "threw " + seen);
    }
    if (!want.startsWith(bad.got.toString())) p.fail(where + "the sink holds \"" + Show.text(bad.got.toString()) + "\"");
    if (bad.after) p.fail(where + "another append followed");
    // Everything is usable again, for the same and for fresh arguments.
    String again = f.format(a);
    if (!again.equals(want)) p.fail(where + "afterwards the formatter gives \"" + Show.text(again) + "\"");
    if (!plain(f, a).equals(want)) p.fail(where + "afterwards a sound sink gets other text");
    if (!f.format(Impl.args(it.args)).equals(want)) p.fail(where + "afterwards fresh arguments print differently");
    p.sample(() -> where + "prefix of " + bad.got.length() + " chars, thrown " + bad.thrown);
  }

  /** Things a sink may throw, by class: some are easily mistaken for something else. */
  static Throwable thing(int k) {
    switch (k) {
      case 0:
        return new java.io.InterruptedIOException("x");
      case 1:
        return new java.io.EOFException();
      case 2:
        return new java.nio.channels.ClosedByInterruptException();
      case 3:
        return new java.nio.charset.UnmappableCharacterException(1);
      case 4:
        return new java.io.FileNotFoundException("x");
      case 5:
        return new java.net.SocketTimeoutException("x");
      case 6:
        return new IOException(new RuntimeException("wrapped"));
      case 7:
        return new IOException(new IOException("wrapped"));
      case 8:
        return new IOException(); // no message, no cause
      case 9:
        return new io.fastprintf.PrintfException("from a sink");
      case 10:
        return new java.io.UncheckedIOException(new IOException("inside"));
      case 11:
        return new IllegalArgumentException("x");
      case 12:
        return new NullPointerException();
      case 13:
        return new IndexOutOfBoundsException("x");
      case 14:
        return new ClassCastException();
      case 15:
        return new java.util.NoSuchElementException();
      case 16:
        return new IllegalStateException("x");
      case 17:
        return new UnsupportedOperationException();
      case 18:
        return new java.nio.ReadOnlyBufferException();
      case 19:
        return new StackOverflowError();
      case 20:
        return new OutOfMemoryError("not really");
      case 21:
        return new AssertionError("x");
      case 22:
        return new NumberFormatException("x");
      default:
        return new java.time.DateTimeException("x");
    }
  }

  static final int THINGS = 24;

  /** The first of the things that an argument may throw. */
  static final int UNCHECKED = 9;

  /** An argument whose toString throws a given thing at the n-th call. */
  static final class Throwing implements Ref.Modelled {
    final Throwable t;
    boolean armed = true;

    Throwing(Throwable t) {
      this.t = t;
    }

    @Override
    public String modelText() {
      return text();
    }

    private String text() {
      if (armed) C11.<RuntimeException>sneak(t);
      return "calm";
    }

    @Override
    public String toString() {
      return text();
    }
  }

  @SuppressWarnings("unchecked")
  static <T extends Throwable> void sneak(Throwable t) throws T {
    throw (T) t;
  }

  /** What the argument threw is its own, whatever class it has. */
  private static Ref.Out outcome(Throwable t, Throwing bomb) {
    return bomb != null && t == bomb.t ? new Ref.Out(Ref.Kind.THROWN, "", t) : Impl.formatOutcome(t, "");
  }

  private static void arg(Explorer.Path p, String fmt, Object[] values, int var, int sink, Throwing bomb) {
    Ref.Out want = Ref.format(fmt, values);
    FastPrintf f = C10.variant(FastPrintf.compile(fmt), var);
    Args a = Impl.args(values);
    StringBuilder b = new StringBuilder("pre");
    Faulty own = new Faulty(-1, 0, false);
    Ref.Out out;
    try {
      String r;
      if (sink == 0) r = f.format(a);
      else if (sink == 1) r = f.format(b, a).substring(3);
      else r = f.format(own, a).got.toString();
      out = new Ref.Out(Ref.Kind.OK, r, null);
    } catch (Throwable t) {
      out = outcome(t, bomb);
    }
    final Ref.Out got = out;
    String where = Show.call(fmt, values) + " variant " + var + " sink " + sink + ": ";
    p.trace();
    p.state(fmt + sink, got);
    if (!Impl.agrees(want, got)) p.fail(where + "gave " + got + ", model says " + want);
    if (want.kind != Ref.Kind.OK) {
      if (sink == 1 && !(b.toString().startsWith("pre") && ("pre" + want.text).startsWith(b.toString()))) p.fail(where + "the builder holds \"" + Show.text(b.toString()) + "\", model says \"" + Show.text(want.text) + "\"");
      if (sink == 2 && !want.text.startsWith(own.got.toString())) p.fail(where + "the sink holds \"" + Show.text(own.got.toString()) + "\", model says \"" + Show.text(want.text) + "\"");
    }
    // The same arguments behave the same again, and the formatter still works.
    Ref.Out second;
    try {
      second = new Ref.Out(Ref.Kind.OK, f.format(Impl.args(values)), null);
    } catch (Throwable t) {
      second = outcome(t, bomb);
    }
    if (!Impl.agrees(want, second)) p.fail(where + "the second time it gave " + second);
    if (bomb != null) {
      bomb.armed = false;
      Ref.Out calm = Ref.format(fmt, values);
      Ref.Out now = Impl.run(f, values);
      bomb.armed = true;
      if (!Impl.agrees(calm, now)) p.fail(where + "with sound arguments it then gave " + now + ", model says " + calm);
    }
    p.sample(() -> where + got);
  }

  @Override
  void define() {
    final List<Corpus.Item> items = Corpus.items();
    final int points = thorough ? 4000 : 400;
    phase(
        "failing appends",
        items.size() + " formats x every append call (at most " + points + ", both ends) x 4 kinds of failure x partial write x 3 variants",
        p -> {
          Corpus.Item it = p.pick(items);
          int kind = p.choose(KINDS);
          boolean partial = p.flip();
          int var = new int[] {0, 1, 4}[p.choose(3)];
          fault(p, it, var, kind, partial, points);
        });
    phase(
        "classes of failures",
        items.size() + " formats x first, second, middle and last append x " + THINGS + " exceptions and errors of the JDK and the product",
        p -> {
          Corpus.Item it = p.pick(items);
          int k = p.choose(THINGS);
          FastPrintf f = FastPrintf.compile(it.fmt);
          Args a = Impl.args(it.args);
          Faulty probe = new Faulty(-1, 0, false);
          f.format(probe, a);
          int calls = probe.calls;
          if (calls == 0) return;
          int where = p.choose(4);
          int at = where < 2 ? where : where == 2 ? calls / 2 : calls - 1;
          if (at >= calls) return;
          Faulty bad = new Faulty(at, -1, false);
          bad.given = thing(k);
          Throwable seen = null;
          try {
            f.format(bad, a);
          } catch (Throwable t) {
            seen = t;
          }
          String name = it + ", append " + at + " of " + calls + " failing with " + bad.given + ": ";
          p.trace();
          p.state(it.fmt + k, bad.got.toString());
          if (seen == null) p.fail(name + "no exception");
          if (bad.given instanceof IOException) {
            if (!(seen instanceof RuntimeException) || seen.getCause() != bad.given) p.fail(name + "threw " + seen + " caused by " + seen.getCause());
          } else if (seen != bad.given) {
            p.fail(name + "threw " + seen);
          }
          if (!(bad.given instanceof IOException) && bad.given.getSuppressed().length != 0) p.fail(name + "something was attached to the sink's exception");
          if (!it.want().text.startsWith(bad.got.toString())) p.fail(name + "the sink holds \"" + Show.text(bad.got.toString()) + "\"");
          if (bad.after) p.fail(name + "another append followed");
          if (!f.format(a).equals(it.want().text)) p.fail(name + "afterwards the formatter gives \"" + Show.text(f.format(a)) + "\"");
        });
    final String[] fmts = {"%s", "%20s", "%S", "%.3s", "a%sb", "%-5s|", "%S%%", "%.0s", "%5.2S"};
    final List<Throwable> all = new ArrayList<>(Arrays.asList(new SinkUnchecked(), new SinkError(), new SinkIO(), new StackOverflowError(), new IllegalStateException("x")));
    for (int k = UNCHECKED; k < THINGS; k++) all.add(thing(k));
    final Throwable[] things = all.toArray(new Throwable[0]);
    phase(
        "failing toString",
        "1..3 directives of " + fmts.length + " with the throwing argument at every position x " + things.length + " throwables (5 of them behind two directives) x sinks x variants",
        p -> {
          int n = p.choose(3) + 1;
          StringBuilder f = new StringBuilder();
          for (int i = 0; i < n; i++) f.append(p.pick(fmts)).append(' ');
          int at = p.choose(n);
          Throwing bomb = new Throwing(things[p.choose(n > 2 ? 5 : things.length)]);
          Object[] v = new Object[n];
          for (int i = 0; i < n; i++) v[i] = i == at ? bomb : i % 2 == 0 ? (Object) "ok" : new StringBuilder("fine text longer than sixteen");
          arg(p, f.toString(), v, p.choose(2), p.choose(3), bomb);
        });
    // an action cannot throw a checked exception
    final Throwable[] unchecked = {things[0], things[1], things[3], things[4]};
    final String[] seqFmts = {"%s", "%20s", "%-12s|", "%S", "%.3s", "%.0s", "%5.2S", "a%sb%%"};
    phase(
        "failing sequences",
        "a lazy sequence, alone and in compositions of 5 kinds, whose action fails at its first or second run after 0..3 of its chars x " + seqFmts.length + " formats x 4 throwables x 3 sinks x 2 variants x one argument list or two, then used again by 4 formats",
        p -> {
          int shape = p.choose(6);
          int failRun = p.choose(2);
          int chars = p.choose(4);
          final Throwable boom = p.pick(unchecked);
          String fmt = p.pick(seqFmts);
          int sink = p.choose(3);
          int variant = p.choose(2);
          boolean sameList = p.flip();
          final int[] runs = {0};
          final String text = "lazy text";
          Seq lazy =
              Seq.lazy(
                  b -> {
                    if (runs[0]++ == failRun) {
                      b.append(text, 0, chars);
                      C11.<RuntimeException>sneak(boom);
                    }
                    b.append(text);
                  },
                  text.length());
          Seq seq = lazy;
          String whole = text;
          if (shape == 1) {
            seq = Seq.wrap("before ").append(lazy);
            whole = "before " + text;
          } else if (shape == 2) {
            seq = lazy.append(Seq.wrap(" after"));
            whole = text + " after";
          } else if (shape == 3) {
            seq = lazy.prepend(Seq.wrap("<")).append(Seq.ch('>'));
            whole = "<" + text + ">";
          } else if (shape == 4) {
            seq = lazy.append(lazy);
            whole = text + text;
          } else if (shape == 5) {
            seq = Seq.wrap("ab").append(lazy.append(Seq.repeated('-', 3))).append(Seq.wrap("cd"));
            whole = "ab" + text + "---cd";
          }
          FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
          Args a = Args.create().put(seq);
          String want = Ref.format(fmt, new Object[] {whole}).text;
          String name = fmt + " of \"" + whole + "\" shape " + shape + " whose action fails at run " + failRun + " after " + chars + " chars with " + boom + ", sink " + sink + " variant " + variant + ": ";
          p.trace();
          // until the failure has happened, each use gives the whole text or exactly the failure
          int uses = 0;
          while (uses < 4) {
            boolean failing = false;
            StringBuilder b = new StringBuilder("pre");
            Faulty own = new Faulty(-1, 0, false);
            String got = null;
            try {
              if (sink == 0) got = f.format(a);
              else if (sink == 1) got = f.format(b, a).substring(3);
              else got = f.format(own, a).got.toString();
            } catch (Throwable t) {
              failing = true;
              if (t != boom) p.fail(name + "use " + uses + " threw " + t);
              if (sink == 1 && !("pre" + want).startsWith(b.toString())) p.fail(name + "the builder holds \"" + Show.text(b.toString()) + "\"");
              if (sink == 2 && !want.startsWith(own.got.toString())) p.fail(name + "the sink holds \"" + Show.text(own.got.toString()) + "\"");
            }
            if (!failing && !want.equals(got)) p.fail(name + "use " + uses + " gave \"" + Show.text(got) + "\", model says \"" + Show.text(want) + "\"");
            p.state(fmt + shape + sink + uses, String.valueOf(got));
            if (!sameList) a = Args.create().put(seq);
            uses++;
          }
          if (runs[0] > failRun) {
            for (String g : new String[] {"%s", "%30s", "%S", "%.4s"}) {
              String then = Ref.format(g, new Object[] {whole}).text;
              for (int k = 0; k < 2; k++) {
                String r = k == 0 ? FastPrintf.compile(g).format(a) : FastPrintf.compile(g).format(new Faulty(-1, 0, false), Args.create().put(seq)).got.toString();
                if (!r.equals(then)) p.fail(name + "afterwards " + g + " gave \"" + Show.text(r) + "\"");
              }
            }
            String content = seq.toString();
            if (!content.equals(whole) || seq.length() != whole.length()) p.fail(name + "afterwards the sequence holds \"" + Show.text(content) + "\"");
            for (int i = 0; i < whole.length(); i++) if (seq.charAt(i) != whole.charAt(i)) p.fail(name + "afterwards char " + i + " is " + seq.charAt(i));
          }
          p.sample(() -> name + want);
        });
    phase(
        "failing conversions",
        Corpus.failing().size() + " formats failing part-way, alone and behind every corpus format x sinks x variants",
        p -> {
          Corpus.Item bad = p.pick(Corpus.failing());
          int k = p.choose(items.size() + 1);
          Corpus.Item pre = k == items.size() ? new Corpus.Item("") : items.get(k);
          Object[] v = new Object[pre.args.length + bad.args.length];
          System.arraycopy(pre.args, 0, v, 0, pre.args.length);
          System.arraycopy(bad.args, 0, v, pre.args.length, bad.args.length);
          arg(p, pre.fmt + bad.fmt, v, p.choose(3), p.choose(3), null);
        });
    phase(
        "bounded buffers",
        "CharBuffers of every capacity below the length of the text: overflow arrives unchanged, a prefix is kept",
        p -> {
          Corpus.Item it = p.pick(items);
          String want = it.want().text;
          int cap = p.choose(Math.min(want.length(), 120) + 1);
          java.nio.CharBuffer cb = java.nio.CharBuffer.allocate(cap);
          FastPrintf f = FastPrintf.compile(it.fmt);
          Throwable seen = null;
          try {
            f.format(cb, Impl.args(it.args));
          } catch (Throwable t) {
            seen = t;
          }
          cb.flip();
          String got = cb.toString();
          p.trace();
          p.state(it.fmt, got);
          if (cap >= want.length() ? seen != null || !got.equals(want) : !(seen instanceof java.nio.BufferOverflowException) || !want.startsWith(got)) {
            p.fail(it + " into a buffer of " + cap + " chars: " + seen + ", kept \"" + Show.text(got) + "\"");
          }
        });
    assumptions.add("A sink that throws has taken none or half of the chars of the failing call.");
  }
}
