package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.List;

/** Directives do not influence each other: relation between outputs of the product. */
final class C23 extends Check {

  /** A small set covering every conversion, flags, stars, literals. */
  private static List<Corpus.Item> small() {
    List<Corpus.Item> l = new ArrayList<>();
    l.add(new Corpus.Item("lit Text"));
    l.add(new Corpus.Item("%%"));
    l.add(new Corpus.Item("%d", -7));
    l.add(new Corpus.Item("%08X", 48879));
    l.add(new Corpus.Item("%-9s", "left"));
    l.add(new Corpus.Item("%.2s", "cut here"));
    l.add(new Corpus.Item("%S", "upper iß"));
    l.add(new Corpus.Item("%12S", new StringBuilder("upper")));
    l.add(new Corpus.Item("%.3f", 2.71828));
    l.add(new Corpus.Item("%+.2E", 12345.678));
    l.add(new Corpus.Item("%#g", new BigDecimal("1500000")));
    l.add(new Corpus.Item("%a", 0.1));
    l.add(new Corpus.Item("%*d", -6, 42));
    l.add(new Corpus.Item("%*.*f", 10, 1, 9.96));
    l.add(new Corpus.Item("%.*s", 3, "abcdef"));
    l.add(new Corpus.Item("%c", 'q'));
    l.add(new Corpus.Item("%n", 1));
    l.add(new Corpus.Item("%T{uuuu 'at' MM}", LocalDate.of(2024, 2, 29)));
    l.add(new Corpus.Item("%t", LocalDate.of(2024, 2, 29)));
    l.add(new Corpus.Item("%#o", 8L));
    l.add(new Corpus.Item("%x", BigInteger.TEN.pow(20)));
    l.add(new Corpus.Item("%p", C07.POINTEE));
    l.add(new Corpus.Item("%s", Seq.lazy(b -> b.append("lazy text"), 9)));
    l.add(new Corpus.Item("%S", Seq.wrap("ab").append(Seq.repeated('z', 20))));
    l.add(new Corpus.Item("% d", new Ref.Prim(5)));
    l.add(new Corpus.Item("%s", new Object[] {null}));
    return l;
  }

  /** Directives that resemble each other: same conversion, flags or pattern but for a detail. */
  private static List<Corpus.Item> alike() {
    List<Corpus.Item> l = new ArrayList<>();
    Object[][] values = {
      {"dxXou", 12345}, {"fFeEgGaA", 1234.5678}, {"sS", "some text"}, {"c", 'k'}, {"n", "none"}, {"p", C07.POINTEE}, {"tT", LocalDate.of(2024, 2, 29)}
    };
    for (Object[] v : values) {
      for (char c : ((String) v[0]).toCharArray()) {
        for (String flags : new String[] {"", "-", "0", "+", " ", "#", "-0", "+0"}) {
          for (String w : new String[] {"", "14"}) {
            for (String prec : new String[] {"", ".0", ".3"}) l.add(new Corpus.Item("%" + flags + w + prec + c, v[1]));
          }
        }
      }
    }
    return l;
  }

  /** Date patterns that differ in case, length, quoting or order only. */
  private static List<Corpus.Item> patterns() {
    List<Corpus.Item> l = new ArrayList<>();
    java.time.OffsetDateTime d = java.time.OffsetDateTime.of(2024, 2, 29, 13, 4, 5, 67_000_000, java.time.ZoneOffset.ofHours(2));
    String[] pats = {
      "mm", "MM", "M", "m", "dd", "DD", "D", "d", "DDD", "hh", "HH", "h", "H", "kk", "KK", "ss", "SS", "s", "S", "SSS", "uuuu", "yyyy", "YYYY", "uu", "yy", "u", "x", "X", "xx", "XX", "xxx", "XXX",
      "a", "A", "n", "N", "w", "W", "e", "E", "EEE", "MMM", "'mm'", "'MM'", "m'm'", "m''", "''m", "mm ", " mm", "mm:ss", "ss:mm", "MM-dd", "MM-DD", "mm-dd", "'}'", "'{'", "m'}'", "'%d'", "ppppd", "[mm]", "[MM]"
    };
    for (String s : pats) {
      l.add(new Corpus.Item("%t{" + s + "}", d));
      l.add(new Corpus.Item("%T{" + s + "}", d));
    }
    for (String s : new String[] {"%t", "%T", "%30t", "%-30T", "%.3t"}) l.add(new Corpus.Item(s, d));
    l.add(new Corpus.Item("%20t{mm}", d));
    l.add(new Corpus.Item("%-20t{mm}", d));
    l.add(new Corpus.Item("%20t{MM}", d));
    return l;
  }

  private static boolean glue(String a, String b) {
    // "%t" followed by a literal brace would read as a pattern
    return (a.endsWith("t") || a.endsWith("T")) && b.startsWith("{");
  }

  private final java.util.Map<Corpus.Item, String> solo = new java.util.concurrent.ConcurrentHashMap<>();

  private String alone(Explorer.Path p, Corpus.Item it) {
    String s = solo.get(it);
    if (s == null) {
      Ref.Out o = Impl.run(it.fmt, it.args);
      if (o.kind != Ref.Kind.OK) p.fail(it + " alone gave " + o);
      s = o.text;
      solo.put(it, s);
    }
    return s;
  }

  private void together(Explorer.Path p, int variant, Corpus.Item... parts) {
    StringBuilder fmt = new StringBuilder();
    StringBuilder want = new StringBuilder();
    List<Object> args = new ArrayList<>();
    for (int i = 0; i < parts.length; i++) {
      if (i > 0 && glue(parts[i - 1].fmt, parts[i].fmt)) return;
      fmt.append(parts[i].fmt);
      want.append(alone(p, parts[i]));
      for (Object o : parts[i].args) args.add(o);
    }
    FastPrintf f = C10.variant(FastPrintf.compile(fmt.toString()), variant);
    Args a = Impl.args(args.toArray());
    // twice: the arguments must print the same again
    for (int round = 0; round < 2; round++) {
      Ref.Out got;
      try {
        got = new Ref.Out(Ref.Kind.OK, round == 0 ? f.format(a) : f.format(new StringBuilder(), a).toString(), null);
      } catch (Throwable t) {
        got = Impl.formatOutcome(t, "");
      }
      p.trace();
      if (got.kind != Ref.Kind.OK || !got.text.contentEquals(want)) {
        p.fail(Show.call(fmt.toString(), args.toArray()) + " gave " + got + ", the parts alone give \"" + Show.text(want.toString()) + "\"");
      }
      if (round == 0) {
        p.state(fmt.toString(), got);
        final Ref.Out g = got;
        p.sample(() -> Show.call(fmt.toString(), args.toArray()) + " -> " + g);
      }
    }
  }

  /** A new argument object each time, the same text or value for the same parameters. */
  private static Object fresh(int kind, int n, int text) {
    if (kind < C06.KINDS) {
      StringBuilder b = new StringBuilder();
      String cycle = text == 0 ? "mixed Case text, z! " : "7123456789";
      while (b.length() < n) b.append(cycle.charAt(b.length() % cycle.length()));
      return C06.dress(kind, b.toString());
    }
    switch (kind - C06.KINDS) {
      case 0:
        return new java.util.Date(1709211845067L);
      case 1:
        return new java.util.concurrent.atomic.AtomicInteger(1234567);
      case 2:
        return Seq.forArray("the quick brown fox jumps over the lazy dog".toCharArray());
      case 3:
        return Seq.join(java.util.Arrays.asList(Seq.forArray("the quick ".toCharArray()), Seq.wrap("brown fox"), Seq.repeated('q', 20)));
      default:
        return new BigDecimal("98765.4321");
    }
  }

  @Override
  void define() {
    final List<Corpus.Item> items = Corpus.items();
    final List<Corpus.Item> few = small();
    phase(
        "pairs",
        "all ordered pairs of the " + items.size() + " corpus formats x plain and cached formatter",
        p -> {
          Corpus.Item a = p.pick(items);
          Corpus.Item b = p.pick(items);
          together(p, p.choose(2), a, b);
        });
    final List<Corpus.Item> alike = alike();
    phase(
        "pairs of similar directives",
        "all ordered pairs of " + alike.size() + " directives: conversions x flag sets x widths x precisions",
        p -> together(p, 0, p.pick(alike), p.pick(alike)));
    final List<Corpus.Item> patterns = patterns();
    phase(
        "date patterns",
        "all ordered pairs and, with a first repeated, triples of " + patterns.size() + " date directives whose patterns differ in a detail x separators",
        p -> {
          Corpus.Item a = p.pick(patterns);
          Corpus.Item b = p.pick(patterns);
          int v = p.choose(2);
          together(p, v, a, b);
          together(p, v, a, new Corpus.Item("/"), b, a);
        });
    phase(
        "triples",
        "all ordered triples of the " + few.size() + " covering items, each item also twice with the same argument object",
        p -> {
          Corpus.Item a = p.pick(few);
          Corpus.Item b = p.pick(few);
          Corpus.Item c = p.pick(few);
          int v = p.choose(2);
          together(p, v, a, b, c);
          together(p, v, a, b, a, c);
        });
    if (thorough) {
      phase(
          "quadruples",
          "all ordered quadruples of the " + few.size() + " covering items",
          p -> together(p, 0, p.pick(few), p.pick(few), p.pick(few), p.pick(few)));
    }
    phase(
        "framed",
        "every corpus format between every pair of 8 literals",
        p -> {
          Corpus.Item it = p.pick(items);
          String[] lits = {"", "a", "%%", "Zz", "0x", "{}", "'", "\n\t😀"};
          together(p, p.choose(3), new Corpus.Item(p.pick(lits)), it, new Corpus.Item(p.pick(lits)));
        });
    final String[] uses = {
      "%s", "%S", "%.5s", "%.20S", "%.0s", "%50s", "%-50S", "%c", "%5c", "%d", "%x", "%o", "%+.2f", "%E", "%g", "%a", "%A", "%t", "%T{uuuu}", "%n", "%.33s", "%S%S", "%s%s"
    };
    phase(
        "one argument used several times",
        "every kind of text argument x lengths 0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 200 x texts, numbers and dates: all ordered pairs and triples of " + uses.length
            + " directives given one object, each as it prints a fresh equal object alone",
        p -> {
          int kind = p.choose(C06.KINDS + 5);
          int n = p.pick(new int[] {0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 200});
          int text = p.choose(2);
          if (kind >= C06.KINDS && (n > 0 || text > 0)) return;
          int i = p.choose(uses.length);
          int j = p.choose(uses.length);
          int k = p.choose(thorough || n == 33 || kind >= C06.KINDS ? uses.length : 2);
          Object shared = fresh(kind, n, text);
          StringBuilder fmt = new StringBuilder();
          StringBuilder want = new StringBuilder();
          List<Object> args = new ArrayList<>();
          for (String u : new String[] {uses[i], uses[j], uses[k]}) {
            Object one = fresh(kind, n, text);
            Ref.Out alone = u.length() == 4 && u.lastIndexOf('%') > 0 ? Impl.run(u, one, one) : Impl.run(u, one);
            if (alone.kind != Ref.Kind.OK) return;
            fmt.append(u).append('|');
            want.append(alone.text).append('|');
            args.add(shared);
            if (u.length() == 4 && u.lastIndexOf('%') > 0) args.add(shared);
          }
          Ref.Out got = Impl.run(fmt.toString(), args.toArray());
          p.trace();
          p.state(fmt.toString(), got);
          if (got.kind != Ref.Kind.OK || !got.text.contentEquals(want)) {
            p.fail(Show.call(fmt.toString(), args.toArray()) + " gave " + got + ", the directives alone give \"" + Show.text(want.toString()) + "\"");
          }
          Ref.Out again = Impl.run(fmt.toString(), args.toArray());
          if (!again.equals(got)) p.fail(Show.call(fmt.toString(), args.toArray()) + " gave " + again + " after " + got);
        });
    phase(
        "many",
        "every covering item repeated 1..64, 100, 1000 and 5000 times, alone and alternating with each other item",
        p -> {
          Corpus.Item a = p.pick(few);
          int k = p.choose(67);
          int n = k < 64 ? k + 1 : new int[] {100, 1000, 5000}[k - 64];
          int other = n > 1000 ? 0 : p.choose(few.size() + 1);
          Corpus.Item b = other == 0 ? a : few.get(other - 1);
          Corpus.Item[] parts = new Corpus.Item[n];
          for (int i = 0; i < n; i++) parts[i] = i % 2 == 0 ? a : b;
          together(p, 0, parts);
        });
  }
}
