package mc;

import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfSyntaxException;

/** The format language. */
final class C08 extends Check {

  /** Integers suit every conversion but %p of primitives. */
  private static final Object[] ARGS = {3, 5, 2, 4, 7, 1, 6, 9, 8, 3, 5, 2, 4, 7};

  static void check(Explorer.Path p, String fmt, Object... args) {
    Ref.Out want = Ref.format(fmt, args);
    FastPrintf f = null;
    Ref.Out got;
    try {
      f = FastPrintf.compile(fmt);
      got = null;
    } catch (Throwable t) {
      got = Impl.compileOutcome(t);
      if (t instanceof PrintfSyntaxException) {
        PrintfSyntaxException e = (PrintfSyntaxException) t;
        if (!fmt.equals(e.getPattern())) p.fail("syntax error of \"" + Show.text(fmt) + "\" names the pattern " + e.getPattern());
        if (e.getIndex() < 0 || e.getIndex() > fmt.length()) {
          p.fail("syntax error of \"" + Show.text(fmt) + "\" names index " + e.getIndex());
        }
        if (e.getDescription() == null || !e.getMessage().contains(fmt)) {
          p.fail("syntax error of \"" + Show.text(fmt) + "\" has the message " + e.getMessage());
        }
      }
    }
    if (got == null) got = Impl.run(f, args);
    p.trace();
    p.state(fmt, got);
    if (!Impl.agrees(want, got)) p.fail(Show.call(fmt, args) + " gave " + got + ", model says " + want);
    final Ref.Out o = got;
    p.sample(() -> "\"" + Show.text(fmt) + "\" -> " + o);
  }

  @Override
  void define() {
    final String alpha = "%-0 #+*.17dstnx{}'ya";
    final int max = thorough ? 6 : 5;
    phase(
        "all strings",
        "all strings to length " + max + " over the " + alpha.length() + " chars \"" + alpha + "\"",
        p -> {
          int first = p.choose(alpha.length() * alpha.length());
          int n = 2 + p.choose(max - 1);
          char[] a = new char[n];
          a[0] = alpha.charAt(first / alpha.length());
          a[1] = alpha.charAt(first % alpha.length());
          for (int i = 2; i < n; i++) a[i] = alpha.charAt(p.choose(alpha.length()));
          check(p, new String(a), ARGS);
        });
    final String alpha2 = alpha;
    phase(
        "longer strings",
        "all strings of length " + (max + 1) + " starting with % over \"" + alpha2 + "\"",
        p -> {
          int first = p.choose(alpha2.length() * alpha2.length());
          char[] a = new char[max + 1];
          a[0] = '%';
          a[1] = alpha2.charAt(first / alpha2.length());
          a[2] = alpha2.charAt(first % alpha2.length());
          for (int i = 3; i < a.length; i++) a[i] = alpha2.charAt(p.choose(alpha2.length()));
          check(p, new String(a), ARGS);
        });
    phase(
        "very short",
        "the empty string and all strings of one char",
        p -> {
          int c = p.choose(65537);
          check(p, c == 65536 ? "" : String.valueOf((char) c), ARGS);
        });
    final String[] frames = {"%~", "%-~d", "%5~d", "%.~d", "%.3~d", "%*~", "%.*~d", "%~d", "%0~5d", "a~b%d", "%t~", "%t{~}", "%d~", "%-5.3~", "%%~", "~%", "%d{~}", "%T{yy~yy}"};
    phase(
        "every char everywhere",
        "all 65536 chars in " + frames.length + " places of a directive",
        p -> {
          char c = (char) (p.choose(256) << 8 | p.choose(256));
          String fr = p.pick(frames);
          check(p, fr.replace('~', c), ARGS);
        });
    final String[] widths = {"", "0", "1", "007", "12", "65535", "65536", "65537", "99999", "2147483647", "2147483648", "99999999999999999999", "*", "5*", "**", "*5", "-5", "+5"};
    final String[] precs = {"", ".", ".0", ".1", ".007", ".12", ".65536", ".65537", ".2147483647", ".2147483648", ".*", ".-1", ".+1", "..", ".5*", ".*5", ".**"};
    final String convs = "diuoxXfFeEgGaAcsStTnp%ICDlhLqjzyY0{";
    final String[] tails = {"", "{yyyy}", "{}", "{", "{b}", "x"};
    phase(
        "all directive shapes",
        "32 flag sets + repeated flags x " + widths.length + " widths x " + precs.length + " precisions x " + convs.length() + " letters x " + tails.length + " tails",
        p -> {
          int i = p.choose(FLAG_SETS.length + 5);
          String fl = i < 32 ? FLAG_SETS[i] : new String[] {"--", "-0-", "00", "+ +", "# 0+-#"}[i - 32];
          String w = p.pick(widths);
          String q = p.pick(precs);
          // huge but legal sizes are C21's business; keep the outputs small
          if (w.startsWith("6553") && w.length() == 5 && q.startsWith(".6553")) return;
          if ((w.startsWith("6553") || q.startsWith(".6553")) && i % 8 != 3) return;
          char c = convs.charAt(p.choose(convs.length()));
          check(p, "<%" + fl + w + q + c + p.pick(tails) + ">", ARGS);
        });
    final String[] pieces = {"%d", "%%", "x", "%s", "%-3d|", "%5%", "%t{yyyy}", "%.2f", "literal text ", "%n", "%*d", "%", "%q", "%t{", "\n", "😀"};
    phase(
        "sequences",
        "all sequences of 3 of " + pieces.length + " pieces",
        p -> {
          String s = p.pick(pieces) + p.pick(pieces) + p.pick(pieces);
          if (p.flip()) s = s + p.pick(pieces);
          check(p, s, ARGS);
        });
    final String[] alike = {"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "a", "A", "ab", "ba", " ", "  ", "\0", "{}", "*", "-5", "Siblings", "Teheran", ""};
    phase(
        "literals that can be taken for each other",
        "all triples of " + alike.length + " literals (equal hash codes, anagrams, case, parts of directives) with 4 directives between them",
        p -> {
          String a = p.pick(alike);
          String b = p.pick(alike);
          String c = p.pick(alike);
          String d = p.pick(new String[] {"%d", "%5s", "%%", "%n"});
          String e = p.pick(new String[] {"%d", "%-4x", "%%", "%5%"});
          check(p, a + d + b + e + c, ARGS);
        });
    final int[] counts = {10, 100, 1000, 10000, 50000, thorough ? 1000000 : 200000};
    final String[] units = {"a", "%%", "%d", "%d,", "%5%", "-%s", "%n"};
    phase(
        "long strings",
        counts.length + " repetition counts up to " + counts[counts.length - 1] + " x " + units.length + " units, valid and with a mistake at the end",
        p -> {
          int n = p.pick(counts);
          String u = p.pick(units);
          int tail = p.choose(3);
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < n; i++) b.append(u);
          b.append(new String[] {"", "%", "%y"}[tail]);
          boolean takes = u.matches(".*%[dsn].*");
          Object[] args = new Object[takes ? n : 0];
          for (int i = 0; i < args.length; i++) args[i] = i % 10;
          check(p, b.toString(), args);
        });
    phase(
        "long literals",
        "literals of all lengths 0..40 and 2^k-1..2^k+1 to 2^20, around a directive",
        p -> {
          int k = p.choose(100);
          int n = k <= 40 ? k : (1 << (k - 41) / 3) + (k - 41) % 3 - 1;
          char[] a = new char[n];
          for (int i = 0; i < n; i++) a[i] = (char) (i % 251 == 37 ? 'z' : i % 251 + 1);
          for (int i = 0; i < n; i++) if (a[i] == '%') a[i] = '$';
          String lit = new String(a);
          switch (p.choose(3)) {
            case 0:
              check(p, lit, ARGS);
              break;
            case 1:
              check(p, lit + "%d" + lit, ARGS);
              break;
            default:
              check(p, "%d" + lit + "%%", ARGS);
          }
        });
    assumptions.add("For strings with two mistakes (a number beyond the limit and a syntax error) either report is accepted.");
  }
}
