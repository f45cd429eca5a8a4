package mc;

import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.ObjectInputStream;
import java.io.ObjectOutputStream;
import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Objects;

/** Refusals say what was refused. */
final class C26 extends Check {
  private static final String NL = System.lineSeparator();

  /** The text of a syntax error, from its parts. */
  static String layout(String desc, String pattern, int index) {
    StringBuilder b = new StringBuilder().append(desc);
    if (index >= 0) b.append(" near index ").append(index);
    b.append(NL).append(pattern);
    if (pattern != null && index >= 0 && index < pattern.length()) {
      b.append(NL);
      for (int i = 0; i < index; i++) b.append(' ');
      b.append('^');
    }
    return b.toString();
  }

  private static boolean digit(char c) {
    return c >= '0' && c <= '9';
  }

  /**
   * Where the first malformed directive starts and the last place that can be blamed for it, or
   * null if there is none that this grammar knows.
   */
  static int[] blame(String s) {
    int n = s.length();
    int i = 0;
    while (i < n) {
      if (s.charAt(i) != '%') {
        i++;
        continue;
      }
      int start = i++;
      if (i < n && s.charAt(i) == '%') {
        i++;
        continue;
      }
      int seen = 0;
      while (i < n && "-+ #0".indexOf(s.charAt(i)) >= 0) {
        int bit = 1 << "-+ #0".indexOf(s.charAt(i));
        if ((seen & bit) != 0) return new int[] {start, i};
        seen |= bit;
        i++;
      }
      if (i < n && s.charAt(i) == '*') {
        i++;
      } else {
        int from = i;
        while (i < n && digit(s.charAt(i))) i++;
        if (tooBig(s.substring(from, i))) return new int[] {start, i};
      }
      if (i < n && s.charAt(i) == '.') {
        i++;
        if (i < n && s.charAt(i) == '*') {
          i++;
        } else {
          int from = i;
          while (i < n && digit(s.charAt(i))) i++;
          if (tooBig(s.substring(from, i))) return new int[] {start, i};
        }
      }
      if (i >= n) return new int[] {start, n};
      char c = s.charAt(i);
      if ("diuoxXfFeEgGaAcsStTnp%".indexOf(c) < 0) return new int[] {start, i};
      i++;
      if ((c == 't' || c == 'T') && i < n && s.charAt(i) == '{') {
        int j = i + 1;
        boolean quoted = false;
        while (j < n && (quoted || s.charAt(j) != '}')) {
          if (s.charAt(j) == '\'') quoted = !quoted;
          j++;
        }
        if (j >= n) return new int[] {start, n};
        if (!pattern(s.substring(i + 1, j))) return new int[] {start, j + 1};
        i = j + 1;
      }
    }
    return null;
  }

  private static boolean tooBig(String digits) {
    return !digits.isEmpty() && new java.math.BigInteger(digits).bitLength() > 31;
  }

  private static boolean pattern(String s) {
    if (s.isEmpty()) return false;
    try {
      DateTimeFormatter.ofPattern(s);
      return true;
    } catch (IllegalArgumentException e) {
      return false;
    }
  }

  static void format(Explorer.Path p, String fmt) {
    int[] blame = blame(fmt);
    String what = "refusal of \"" + Show.text(fmt) + "\"";
    PrintfSyntaxException first = null;
    for (int round = 0; round < 2; round++) {
      PrintfSyntaxException e = null;
      try {
        FastPrintf.compile(fmt);
      } catch (PrintfSyntaxException x) {
        e = x;
      } catch (PrintfException x) {
        if (x.getMessage() == null || x.getMessage().trim().isEmpty()) p.fail(what + " has no message");
        p.state(fmt, 1);
        p.trace();
        return;
      }
      if (e == null) {
        p.state(fmt, 0);
        return;
      }
      if (blame == null) p.fail("\"" + Show.text(fmt) + "\" is refused: " + e.getMessage());
      if (!fmt.equals(e.getPattern())) p.fail(what + " names the pattern \"" + Show.text("" + e.getPattern()) + "\"");
      if (e.getIndex() < blame[0] || e.getIndex() > blame[1]) p.fail(what + " names index " + e.getIndex() + ", the malformed directive is within " + blame[0] + ".." + blame[1]);
      if (e.getDescription() == null || e.getDescription().trim().isEmpty()) p.fail(what + " has no description");
      String want = layout(e.getDescription(), fmt, e.getIndex());
      if (!want.equals(e.getMessage())) p.fail(what + " has the message \"" + Show.text(e.getMessage()) + "\", not \"" + Show.text(want) + "\"");
      if (first == null) first = e;
      else if (first.getIndex() != e.getIndex() || !first.getMessage().equals(e.getMessage())) p.fail(what + " differs when repeated");
    }
    p.trace();
    p.state(fmt, first.getIndex());
    PrintfSyntaxException e = first;
    p.sample(() -> "\"" + Show.text(fmt) + "\" -> " + e.getDescription() + " at " + e.getIndex());
  }

  @Override
  void define() {
    final String[] descs = {"", "d", "a description with %s and %d", "two\nlines", null};
    phase(
        "layout",
        descs.length + " descriptions x patterns of all lengths to 80, with line breaks, none, and without x all indexes from -2 to two beyond the end x with and without cause",
        p -> {
          int len = p.choose(82) - 1;
          String desc = p.pick(descs);
          boolean broken = p.flip();
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < len; i++) b.append(broken && i % 7 == 3 ? '\n' : "a%é😀 {".charAt(i % 7));
          String pattern = len < 0 ? null : b.toString();
          int index = p.choose(Math.max(0, len) + 5) - 2;
          int cause = p.choose(3);
          Throwable t = cause == 2 ? new IllegalStateException("inner") : null;
          PrintfSyntaxException e = cause == 0 ? new PrintfSyntaxException(desc, pattern, index) : new PrintfSyntaxException(desc, pattern, index, t);
          String what = "PrintfSyntaxException(" + desc + ", " + (pattern == null ? null : Show.text(pattern)) + ", " + index + ")";
          if (e.getIndex() != index || e.getDescription() != desc || e.getPattern() != pattern || e.getCause() != t) p.fail(what + " does not give back its parts");
          String want = layout(desc, pattern, index);
          if (!want.equals(e.getMessage())) p.fail(what + " has the message \"" + Show.text(e.getMessage()) + "\", not \"" + Show.text(want) + "\"");
          if (!e.toString().contains(want)) p.fail(what + " prints as " + Show.text(e.toString()));
          if (len < 20) {
            PrintfSyntaxException r = (PrintfSyntaxException) reread(e);
            if (r.getIndex() != index || !Objects.equals(r.getDescription(), desc) || !Objects.equals(r.getPattern(), pattern) || !want.equals(r.getMessage()) || (r.getCause() == null) != (t == null)) {
              p.fail(what + " written and read back has the message " + Show.text(r.getMessage()) + ", index " + r.getIndex() + ", pattern " + r.getPattern());
            }
          }
          p.trace();
          p.state(what, cause);
        });
    phase(
        "templates",
        "all templates of up to 5 pieces of {'%s', '%', 's', 'a b', '%d'} x up to 3 arguments of 5 kinds, made by the caller: message; written and read back",
        p -> {
          int n = p.choose(6);
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < n; i++) b.append(p.pick(new String[] {"%s", "%", "s", "a b", "%d"}));
          String template = b.toString();
          int k = p.choose(4);
          Object[] args = new Object[k];
          String[] text = new String[k];
          for (int i = 0; i < k; i++) {
            Object[] kinds = {"v" + i, i, null, "%s", new int[0].getClass()};
            args[i] = p.pick(kinds);
            text[i] = String.valueOf(args[i]);
          }
          StringBuilder want = new StringBuilder();
          int at = 0;
          int used = 0;
          while (at < template.length()) {
            if (used < k && template.startsWith("%s", at)) {
              want.append(text[used++]);
              at += 2;
            } else {
              want.append(template.charAt(at++));
            }
          }
          for (int i = used; i < k; i++) want.append(i == used ? " [" : ", ").append(text[i]).append(i == k - 1 ? "]" : "");
          PrintfException e = new PrintfException(template, args.clone());
          String what = "PrintfException(\"" + template + "\", " + Arrays.toString(text) + ")";
          if (!want.toString().equals(e.getMessage())) p.fail(what + " has the message \"" + e.getMessage() + "\", not \"" + want + "\"");
          if (e.getCause() != null) p.fail(what + " has a cause");
          if (n < 3) {
            PrintfException r = (PrintfException) reread(e);
            if (!want.toString().equals(r.getMessage())) p.fail(what + " written and read back has the message " + r.getMessage());
          }
          Throwable t = new IllegalStateException("inner");
          PrintfException c = new PrintfException(template, t);
          if (c.getCause() != t || !template.equals(c.getMessage())) p.fail("PrintfException(\"" + template + "\", cause) has the message " + c.getMessage() + " and the cause " + c.getCause());
          p.trace();
          p.state(template, Arrays.toString(text));
          p.sample(() -> what + " -> " + e.getMessage());
        });
    phase(
        "objects without text",
        "objects whose toString throws one of 3 exceptions, whose hashCode or equals throw, under every conversion that refuses them and as a star x layouts",
        p -> {
          int kind = p.choose(5);
          Object v = new Object() {
            @Override
            public String toString() {
              if (kind == 0) throw new IllegalStateException("no text");
              if (kind == 1) throw new NullPointerException();
              if (kind == 2) throw new PrintfException("no text");
              return "fine";
            }

            @Override
            public int hashCode() {
              if (kind == 3) throw new IllegalStateException("no hash");
              return 7;
            }

            @Override
            public boolean equals(Object o) {
              if (kind == 4) throw new IllegalStateException("no equality");
              return o == this;
            }
          };
          char c = "diuoxXfFeEgGaActT*.".charAt(p.choose(19));
          String fmt = c == '*' ? "%*d" : c == '.' ? "%.*d" : "%" + p.pick(new String[] {"", "12", "-30.4", "+#"}) + c;
          try {
            String got = FastPrintf.compile(fmt).format(Impl.args(v, 5));
            p.fail(fmt + " of an object without text was not refused: " + got);
          } catch (PrintfException e) {
            if (e.getMessage() == null || e.getMessage().trim().isEmpty()) p.fail("refusal of " + fmt + " for an object without text has no message");
            if (kind == 2 && "no text".equals(e.getMessage())) p.fail(fmt + " passed on the exception of the argument's toString");
            if (kind > 2 && !e.getMessage().contains("fine")) p.fail("refusal of " + fmt + " does not name the argument: " + e.getMessage());
          } catch (RuntimeException e) {
            p.fail(fmt + " of an object whose text fails (" + kind + ") threw " + e);
          }
          p.trace();
          p.state(fmt, kind);
        });

    final String alpha = "%-0*.9dtq{}'yb";
    final int max = thorough ? 5 : 4;
    phase(
        "formats",
        "all strings to length " + max + " over \"" + alpha + "\", after each of 6 beginnings and before each of 3 endings",
        p -> {
          int first = p.choose(alpha.length() * alpha.length());
          String head = p.pick(new String[] {"", "%", "x%%y", "%5.2f and %s", "%t{yyyy-MM-dd'}'} then %", "\n%n"});
          String tail = p.pick(new String[] {"", " tail", "%q%w"});
          int n = 2 + p.choose(max - 1);
          StringBuilder b = new StringBuilder(head).append(alpha.charAt(first / alpha.length())).append(alpha.charAt(first % alpha.length()));
          for (int i = 2; i < n; i++) b.append(alpha.charAt(p.choose(alpha.length())));
          format(p, b.append(tail).toString());
        });

    final String[] bad = {"%", "%q", "%5", "%.", "%.3", "%--d", "%0-+0d", "%99999999999d", "%.99999999999d", "%t{", "%t{'}", "%t{}", "%t{yyyy", "%t{QQQQQQ}", "%T{'a}b", "%-5.*", "%*", "% ", "%{", "%d%", "%\n", "%é", "%😀"};
    phase(
        "long formats",
        bad.length + " malformed directives after 0..300 and around 1000, 65536 chars of literal text, of directives, of patterns",
        p -> {
          String s = p.pick(bad);
          int n = p.choose(305);
          if (n > 300) n = new int[] {1000, 4096, 65535, 65536}[n - 301];
          int kind = p.choose(3);
          StringBuilder b = new StringBuilder();
          while (b.length() < n) b.append(kind == 0 ? "." : kind == 1 ? "%%" : b.length() % 2 == 0 ? "%d" : "%t{''''}");
          format(p, b.append(s).append(p.flip() ? " and more %d" : "").toString());
        });

    phase(
        "echoes",
        bad.length + " malformed directives after every directive and literal that contains the same chars, once or repeatedly, before and after them",
        p -> {
          String s = p.pick(bad);
          String echo = s.substring(1);
          String[] echoes = {echo, s.replace("%", "%%"), "%d" + echo, "%%%%" + echo + "%-5s", "%t{'" + echo.replace("'", "''") + "'}", "%5" + "%" + echo};
          String head = p.pick(echoes);
          if (p.flip()) head = head + " " + head;
          String tail = p.flip() ? "" : " " + p.pick(echoes);
          format(p, head + s + tail);
        });
    phase(
        "long texts",
        "texts of all lengths to 300 and to 70000 that are no numbers, by their first, middle or last char, under each numeric conversion; quoted in full",
        p -> {
          int n = p.choose(304);
          if (n >= 300) n = new int[] {1000, 4096, 65536, 70000}[n - 300];
          char c = "diuoxXfFeEgGaA".charAt(p.choose(14));
          int where = p.choose(3);
          StringBuilder b = new StringBuilder();
          for (int i = 0; i <= n; i++) b.append((char) ('1' + i % 9));
          b.setCharAt(where == 0 ? 0 : where == 1 ? n / 2 : n, '?');
          Object v = C06.dress(p.choose(2) * 3, b.toString());
          try {
            FastPrintf.compile("%" + c).format(Impl.args(new Object[] {v}));
            p.fail("not refused: " + Show.text(b.toString()));
          } catch (PrintfException e) {
            message(p, "%" + c, v, e);
          }
        });

    final List<Object> args = C20.arguments();
    final String[] lays = {"", "12", "-30.4", ".1"};
    phase(
        "conversions",
        args.size() + " arguments x " + C20.CONV.length() + " conversions x " + lays.length + " layouts: the refusals, with a message each, quoting text that is not a number and keeping the cause",
        p -> {
          Object v = p.pick(args);
          char c = C20.CONV.charAt(p.choose(C20.CONV.length()));
          String fmt = "%" + p.pick(lays) + c;
          Ref.Out want = Ref.format(fmt, v);
          if (want.kind != Ref.Kind.REFUSED) {
            p.state(fmt.hashCode());
            return;
          }
          try {
            FastPrintf.compile(fmt).format(Impl.args(new Object[] {v}));
            p.fail(Show.call(fmt, v) + " was not refused");
          } catch (PrintfException e) {
            message(p, fmt, v, e);
          }
        });
    phase(
        "limits",
        "widths and precisions beyond the limit, written and as stars: the refusal names the number; missing arguments",
        p -> {
          int[] over = {65537, 65538, 70000, 99999, 1000000, 2147483646, 2147483647, -65537, -70000, -2147483647, Integer.MIN_VALUE};
          int n = p.pick(over);
          boolean prec = p.flip();
          boolean star = p.flip();
          char c = "dsfxcta".charAt(p.choose(7));
          if (!star && n < 0 || prec && n < 0) return;
          String fmt = "%" + (prec ? "." : "") + (star ? "*" : "" + n) + c;
          try {
            FastPrintf f = FastPrintf.compile("abc " + fmt);
            f.format(Impl.args(new Object[] {n, 5}));
            p.fail(fmt + " with " + n + " was not refused");
          } catch (PrintfException e) {
            String number = ("" + n).replace("-", "");
            if (e.getMessage() == null || !e.getMessage().contains(number)) p.fail("refusal of " + fmt + " with " + n + " has the message " + e.getMessage());
          }
          p.trace();
          p.state(fmt, n);
        });
    phase(
        "missing",
        "every conversion, with and without stars, without its last argument",
        p -> {
          String d = p.pick(new String[] {"%", "%5", "%-8.3", "%*", "%.*", "%*.*"});
          char c = "diuoxXfFeEgGaAcsStTp".charAt(p.choose(20));
          int before = p.choose(4);
          StringBuilder b = new StringBuilder();
          List<Object> l = new ArrayList<>();
          for (int i = 0; i < before; i++) {
            b.append("%s, ");
            l.add("v" + i);
          }
          for (int i = 0; i < d.length(); i++) if (d.charAt(i) == '*') l.add(4);
          boolean none = d.indexOf('*') >= 0 && p.flip();
          if (none) l.remove(l.size() - 1);
          String fmt = b + d + c;
          try {
            FastPrintf.compile(fmt).format(Impl.args(l.toArray()));
            p.fail(Show.call(fmt, l.toArray()) + " was not refused");
          } catch (PrintfException e) {
            if (e.getMessage() == null || e.getMessage().trim().isEmpty()) p.fail("refusal of " + Show.call(fmt, l.toArray()) + " has no message");
          }
          p.trace();
          p.state(fmt, l.size());
        });
  }

  private static Object reread(Object o) throws IOException, ClassNotFoundException {
    ByteArrayOutputStream out = new ByteArrayOutputStream();
    try (ObjectOutputStream w = new ObjectOutputStream(out)) {
      w.writeObject(o);
    }
    try (ObjectInputStream in = new ObjectInputStream(new ByteArrayInputStream(out.toByteArray()))) {
      return in.readObject();
    }
  }

  private static void message(Explorer.Path p, String fmt, Object v, PrintfException e) {
    String m = e.getMessage();
    String call = Show.call(fmt, v);
    if (m == null || m.trim().isEmpty()) p.fail("refusal of " + call + " has no message");
    char c = fmt.charAt(fmt.length() - 1);
    if (v instanceof CharSequence && "diuoxXfFeEgGaA".indexOf(c) >= 0) {
      if (!m.contains(v.toString())) p.fail("refusal of " + call + " does not quote the text: " + m);
    }
    if (v == null && !m.contains("null")) p.fail("refusal of " + call + " does not name null: " + m);
    p.trace();
    p.state(fmt, m);
    p.sample(() -> call + " -> " + m);
  }
}
