package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.BufferedWriter;
import java.io.ByteArrayOutputStream;
import java.io.CharArrayWriter;
import java.io.OutputStreamWriter;
import java.io.PrintStream;
import java.io.PrintWriter;
import java.io.StringWriter;
import java.nio.CharBuffer;
import java.util.List;

/** All sinks receive the same text. */
final class C10 extends Check {

  /** An Appendable of our own that copies what it is handed, one of several ways. */
  static final class Own implements Appendable {
    final StringBuilder got = new StringBuilder();
    final boolean slow;
    int calls;

    Own(boolean slow) {
      this.slow = slow;
    }

    @Override
    public Appendable append(CharSequence s) {
      calls++;
      return slow ? copy(s, 0, s.length()) : keep(s.toString());
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      calls++;
      return slow ? copy(s, a, b) : keep(s.subSequence(a, b).toString());
    }

    @Override
    public Appendable append(char c) {
      calls++;
      got.append(c);
      return this;
    }

    private Appendable keep(String s) {
      got.append(s);
      return this;
    }

    private Appendable copy(CharSequence s, int a, int b) {
      for (int i = a; i < b; i++) got.append(s.charAt(i));
      return this;
    }
  }

  /** A Writer of our own that counts what is done to it besides writing. */
  static final class Closeable extends java.io.Writer {
    final StringBuilder got = new StringBuilder();
    int other;

    @Override
    public void write(char[] c, int off, int len) {
      got.append(c, off, len);
    }

    @Override
    public void flush() {
      other++;
    }

    @Override
    public void close() {
      other++;
    }
  }

  /** An Appendable that could be mistaken for many other things. */
  static final class Rich implements Appendable, CharSequence, java.io.Flushable, java.io.Closeable, Comparable<Object>, Iterable<Object>, Runnable {
    final StringBuilder got = new StringBuilder();
    int other;

    @Override
    public Appendable append(CharSequence s) {
      got.append(s.toString());
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      got.append(s, a, b);
      return this;
    }

    @Override
    public Appendable append(char c) {
      got.append(c);
      return this;
    }

    @Override
    public int length() {
      return got.length();
    }

    @Override
    public char charAt(int i) {
      return got.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return got.subSequence(a, b);
    }

    @Override
    public String toString() {
      return got.toString();
    }

    @Override
    public void flush() {
      other++;
    }

    @Override
    public void close() {
      other++;
    }

    @Override
    public int compareTo(Object o) {
      return 0;
    }

    @Override
    public java.util.Iterator<Object> iterator() {
      other++;
      return java.util.Collections.emptyIterator();
    }

    @Override
    public void run() {
      other++;
    }
  }

  /** A StringWriter that does something of its own with what it is given. */
  static final class OwnStringWriter extends StringWriter {
    final StringBuilder got = new StringBuilder();

    @Override
    public void write(int c) {
      got.append((char) c);
    }

    @Override
    public void write(char[] c, int off, int len) {
      got.append(c, off, len);
    }

    @Override
    public void write(String s, int off, int len) {
      got.append(s, off, off + len);
    }

    @Override
    public void write(String s) {
      got.append(s);
    }

    @Override
    public OwnStringWriter append(CharSequence s) {
      got.append(s);
      return this;
    }

    @Override
    public OwnStringWriter append(CharSequence s, int a, int b) {
      got.append(s, a, b);
      return this;
    }

    @Override
    public OwnStringWriter append(char c) {
      got.append(c);
      return this;
    }
  }

  /** A CharArrayWriter that does something of its own with what it is given. */
  static final class OwnArrayWriter extends CharArrayWriter {
    final StringBuilder got = new StringBuilder();

    @Override
    public void write(int c) {
      got.append((char) c);
    }

    @Override
    public void write(char[] c, int off, int len) {
      got.append(c, off, len);
    }

    @Override
    public void write(String s, int off, int len) {
      got.append(s, off, off + len);
    }

    @Override
    public OwnArrayWriter append(CharSequence s) {
      got.append(s);
      return this;
    }

    @Override
    public OwnArrayWriter append(CharSequence s, int a, int b) {
      got.append(s, a, b);
      return this;
    }

    @Override
    public OwnArrayWriter append(char c) {
      got.append(c);
      return this;
    }
  }

  /** A PrintWriter that does something of its own with what it is given. */
  static final class OwnPrintWriter extends PrintWriter {
    final StringBuilder got = new StringBuilder();

    OwnPrintWriter() {
      super(new StringWriter());
    }

    @Override
    public void write(int c) {
      got.append((char) c);
    }

    @Override
    public void write(char[] c, int off, int len) {
      got.append(c, off, len);
    }

    @Override
    public void write(String s, int off, int len) {
      got.append(s, off, off + len);
    }

    @Override
    public void write(String s) {
      got.append(s);
    }

    @Override
    public void write(char[] c) {
      got.append(c);
    }

    @Override
    public OwnPrintWriter append(CharSequence s) {
      got.append(s);
      return this;
    }

    @Override
    public OwnPrintWriter append(CharSequence s, int a, int b) {
      got.append(s, a, b);
      return this;
    }

    @Override
    public OwnPrintWriter append(char c) {
      got.append(c);
      return this;
    }
  }

  /** A PrintStream that does something of its own with what it is given. */
  static final class OwnPrintStream extends PrintStream {
    final StringBuilder got = new StringBuilder();

    OwnPrintStream() {
      super(new ByteArrayOutputStream());
    }

    @Override
    public void print(String s) {
      got.append(s);
    }

    @Override
    public void print(char c) {
      got.append(c);
    }

    @Override
    public OwnPrintStream append(CharSequence s) {
      got.append(s);
      return this;
    }

    @Override
    public OwnPrintStream append(CharSequence s, int a, int b) {
      got.append(s, a, b);
      return this;
    }

    @Override
    public OwnPrintStream append(char c) {
      got.append(c);
      return this;
    }
  }

  static final int VARIANTS = 10;

  /** The formatter in all its derived forms. */
  static FastPrintf variant(FastPrintf f, int k) {
    switch (k) {
      case 0:
        return f;
      case 1:
        return f.enableThreadLocalCache();
      case 2:
        return f.setStringBuilderInitialCapacity(1);
      case 3:
        return f.setStringBuilderInitialCapacity(100000);
      case 4:
        return f.enableThreadLocalCache().setStringBuilderInitialCapacity(1);
      case 5:
        return f.setStringBuilderInitialCapacity(3).enableThreadLocalCache();
      case 6:
        return f.enableThreadLocalCache().setStringBuilderInitialCapacity(70000);
      case 7:
        return f.enableThreadLocalCache().enableThreadLocalCache();
      case 8:
        return f.setStringBuilderInitialCapacity(7).setStringBuilderInitialCapacity(65536);
      default:
        return f.setStringBuilderInitialCapacity(65537).enableThreadLocalCache().setStringBuilderInitialCapacity(16);
    }
  }

  static final int SINKS = 23;
  private static final String[] PREFIX = {"", "P", "some earlier text of more than sixteen chars "};

  static String sink(Explorer.Path p, FastPrintf f, Args a, int kind, String pre) throws Exception {
    Appendable sink;
    switch (kind) {
      case 0:
        return pre + f.format(a);
      case 1:
        return pre + f.format(a.values().toArray());
      case 2:
        {
          StringBuilder b = new StringBuilder(pre);
          if (f.format(b, a) != b) p.fail("another StringBuilder returned");
          return b.toString();
        }
      case 3:
        {
          StringBuilder b = new StringBuilder(pre);
          b.ensureCapacity(100000);
          if (f.format((Appendable) b, a) != b) p.fail("another StringBuilder returned");
          return b.toString();
        }
      case 4:
        {
          StringBuffer b = new StringBuffer(pre);
          if (f.format(b, a) != b) p.fail("another StringBuffer returned");
          return b.toString();
        }
      case 5:
        {
          StringWriter w = new StringWriter();
          w.write(pre);
          if (f.format(w, a) != w) p.fail("another StringWriter returned");
          return w.toString();
        }
      case 6:
        {
          StringWriter w = new StringWriter();
          PrintWriter pw = new PrintWriter(w);
          pw.print(pre);
          if (f.format(pw, a) != pw) p.fail("another PrintWriter returned");
          pw.flush();
          return w.toString();
        }
      case 7:
        {
          CharBuffer b = CharBuffer.allocate(280000);
          b.put(pre);
          if (f.format(b, a) != b) p.fail("another CharBuffer returned");
          b.flip();
          return b.toString();
        }
      case 8:
        {
          CharArrayWriter w = new CharArrayWriter();
          w.write(pre);
          if (f.format(w, a) != w) p.fail("another CharArrayWriter returned");
          return w.toString();
        }
      case 9:
        {
          StringWriter w = new StringWriter();
          BufferedWriter b = new BufferedWriter(w, 3);
          b.write(pre);
          if (f.format(b, a) != b) p.fail("another BufferedWriter returned");
          b.flush();
          return w.toString();
        }
      case 10:
      case 11:
        {
          Own o = new Own(kind == 11);
          o.got.append(pre);
          if (f.format(o, a) != o) p.fail("another Appendable returned");
          return o.got.toString();
        }
      case 12:
        {
          ByteArrayOutputStream out = new ByteArrayOutputStream();
          PrintStream ps = new PrintStream(out, true, "UTF-16BE");
          ps.print(pre);
          if (f.format(ps, a) != ps) p.fail("another PrintStream returned");
          ps.flush();
          return new String(out.toByteArray(), "UTF-16BE");
        }
      case 13:
        {
          ByteArrayOutputStream out = new ByteArrayOutputStream();
          OutputStreamWriter w = new OutputStreamWriter(out, "UTF-16BE");
          w.write(pre);
          if (f.format(w, a) != w) p.fail("another OutputStreamWriter returned");
          w.flush();
          return new String(out.toByteArray(), "UTF-16BE");
        }
      case 14:
        {
          // the same sink twice
          StringBuilder b = new StringBuilder(pre);
          f.format(b, a);
          String once = b.toString();
          f.format(b, a);
          String two = b.toString();
          if (!two.equals(once + once.substring(pre.length()))) p.fail("second append to one StringBuilder gave " + Show.text(two));
          return once;
        }
      case 15:
        {
          Own o = new Own(true);
          f.format(o, a);
          String once = o.got.toString();
          f.format(o, a);
          if (!o.got.toString().equals(once + once)) p.fail("second append to one Appendable gave " + Show.text(o.got.toString()));
          return pre + once;
        }
      case 16:
        {
          Closeable w = new Closeable();
          w.got.append(pre);
          if (f.format(w, a) != w) p.fail("another Writer returned");
          if (w.other > 0) p.fail("the Writer was flushed or closed");
          return w.got.toString();
        }
      case 17:
        {
          Rich r = new Rich();
          r.got.append(pre);
          if (f.format(r, a) != r) p.fail("another Appendable returned");
          if (r.other > 0) p.fail("something else than appending was done to the Appendable");
          return r.got.toString();
        }
      case 18:
        {
          OwnStringWriter w = new OwnStringWriter();
          w.got.append(pre);
          if (f.format(w, a) != w) p.fail("another StringWriter returned");
          return w.got.toString();
        }
      case 19:
        {
          OwnArrayWriter w = new OwnArrayWriter();
          w.got.append(pre);
          if (f.format(w, a) != w) p.fail("another CharArrayWriter returned");
          return w.got.toString();
        }
      case 20:
        {
          OwnPrintWriter w = new OwnPrintWriter();
          w.got.append(pre);
          if (f.format(w, a) != w) p.fail("another PrintWriter returned");
          return w.got.toString();
        }
      case 21:
        {
          OwnPrintStream w = new OwnPrintStream();
          w.got.append(pre);
          if (f.format(w, a) != w) p.fail("another PrintStream returned");
          return w.got.toString();
        }
      default:
        {
          // char array sub-range buffer
          CharBuffer b = CharBuffer.wrap(new char[90000], 5, 80000).slice();
          b.put(pre);
          if (f.format(b, a) != b) p.fail("another CharBuffer returned");
          b.flip();
          return b.toString();
        }
    }
  }

  static void check(Explorer.Path p, Corpus.Item it, int var, int kind, String pre) throws Exception {
    FastPrintf f = variant(FastPrintf.compile(it.fmt), var);
    String want = pre + it.want().text;
    boolean hasPrim = false;
    for (Object o : it.args) hasPrim |= o instanceof Ref.Prim;
    if (kind == 1 && hasPrim && it.fmt.contains("p")) return;
    String got;
    try {
      got = sink(p, f, Impl.args(it.args), kind, pre);
    } catch (Explorer.Violation v) {
      throw new Explorer.Violation(it + " variant " + var + " sink " + kind + ": " + v.getMessage());
    } catch (Throwable t) {
      p.fail(it + " variant " + var + " sink " + kind + " threw " + t);
      return;
    }
    p.trace();
    p.state(it.fmt + var + ":" + kind, got);
    if (!got.equals(want)) {
      p.fail(it + " variant " + var + " sink " + kind + " gave \"" + Show.text(got) + "\", expected \"" + Show.text(want) + "\"");
    }
    final String g = got;
    p.sample(() -> it + " variant " + var + " sink " + kind + " -> " + Show.text(g));
  }

  @Override
  void define() {
    olderToo = true;
    final List<Corpus.Item> items = Corpus.items();
    phase(
        "corpus x sinks",
        items.size() + " formats x " + SINKS + " sinks x " + VARIANTS + " formatter variants x 3 prefixes",
        p -> {
          Corpus.Item it = p.pick(items);
          int kind = p.choose(SINKS);
          int var = p.choose(VARIANTS);
          check(p, it, var, kind, p.pick(PREFIX));
        });
    phase(
        "capacities beyond memory",
        items.size() + " formats x the " + (SINKS - 2) + " sinks of callers, with formatters whose own builder could not be made",
        p -> {
          Corpus.Item it = p.pick(items);
          int kind = 2 + p.choose(SINKS - 2);
          FastPrintf f = FastPrintf.compile(it.fmt).setStringBuilderInitialCapacity(Integer.MAX_VALUE);
          if (p.flip()) f = f.enableThreadLocalCache();
          String got;
          try {
            got = sink(p, f, Impl.args(it.args), kind, "P");
          } catch (Explorer.Violation v) {
            throw v;
          } catch (Throwable t) {
            p.fail(it + " with the largest capacity, sink " + kind + " threw " + t);
            return;
          }
          p.trace();
          p.state(it.fmt + kind, got);
          if (!got.equals("P" + it.want().text)) p.fail(it + " with the largest capacity, sink " + kind + " gave \"" + Show.text(got) + "\"");
        });
    phase(
        "text lengths",
        "texts of all lengths 0..300 and 2^k-1, 2^k, 2^k+1 to 2^17 in 12 kinds x {%s,%S,%45s,%-45S,%.10s} x sinks",
        p -> {
          int len = p.pick(LENGTHS);
          int kind = p.choose(C06.KINDS);
          String fmt = p.pick(new String[] {"%s", "%S", "[%45s]", "%-45S%d", "%.10s"});
          int s = p.choose(SINKS);
          if (len > 40 && fmt.startsWith("%.") || len > 2100 && (s > 11 || fmt.startsWith("["))) return;
          check(p, new Corpus.Item(fmt, C06.dress(kind, text(len)), 7), s % 3, s, "");
        });
    phase(
        "literal lengths",
        "literals of all lengths 0..300 and 2^k-1, 2^k, 2^k+1 to 2^17 before, between and after directives x sinks x variants",
        p -> {
          int len = p.pick(LENGTHS);
          String lit = text(len).replace('%', '!');
          String fmt = p.pick(new String[] {"~", "~%d", "%d~", "%5d~%-9S", "~%%~%s"}).replace("~", lit);
          int s = p.choose(SINKS);
          if (len > 2100 && s > 11) return;
          check(p, new Corpus.Item(fmt, 42, "lower"), p.choose(3), s, "");
        });
    phase(
        "padding lengths",
        "all widths 1..300 and 2^k-1, 2^k, 2^k+1 to 65536 x 8 conversions and flags x sinks",
        p -> {
          int w = p.pick(LENGTHS);
          if (w == 0 || w > 65536) return;
          String fmt = p.pick(new String[] {"%~d", "%-~d", "%0~d", "%~s", "%-~S", "%0~f", "%.~d", "%#.~x"}).replace("~", "" + w);
          int s = p.choose(SINKS);
          if (w > 2100 && s > 11) return;
          Object v = fmt.endsWith("f") ? (Object) 1.5 : fmt.endsWith("s") || fmt.endsWith("S") ? "ab" : (Object) 5;
          check(p, new Corpus.Item(fmt, v), s % 2, s, "");
        });
    assumptions.add("Sinks honour the Appendable contract (append returns the sink and copies what it is given).");
  }

  private static final Integer[] LENGTHS = lengths();

  private static Integer[] lengths() {
    java.util.TreeSet<Integer> l = new java.util.TreeSet<>();
    for (int i = 0; i <= 300; i++) l.add(i);
    for (int k = 9; k <= 17; k++) {
      for (int d = -1; d <= 1; d++) l.add((1 << k) + d);
    }
    return l.toArray(new Integer[0]);
  }

  private static String text(int len) {
    char[] a = new char[len];
    for (int i = 0; i < len; i++) a[i] = "aZ-é9z一%Ω_".charAt(i * 7 % 10);
    return new String(a);
  }
}
