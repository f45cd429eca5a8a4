package mc;

import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneOffset;
import java.util.ArrayList;
import java.util.List;

/** Directives with arguments, covering every conversion and every internal kind of sequence. */
final class Corpus {
  private Corpus() {}

  static final class Item {
    final String fmt;
    final Object[] args;

    Item(String fmt, Object... args) {
      this.fmt = fmt;
      this.args = args;
    }

    Ref.Out want() {
      return Ref.format(fmt, args);
    }

    @Override
    public String toString() {
      return Show.call(fmt, args);
    }
  }

  private static final List<Item> ALL = build();

  /** Everything; all succeed. */
  static List<Item> items() {
    return ALL;
  }

  private static void add(List<Item> l, String fmt, Object... args) {
    l.add(new Item(fmt, args));
  }

  private static List<Item> build() {
    List<Item> l = new ArrayList<>();
    add(l, "");
    add(l, "x");
    add(l, "literal only, longer than sixteen chars %%");
    for (String lay : new String[] {"", "12", "-12", "012", "+d".substring(0, 1), "#", ".5", "20.8", "-20.8"}) {
      add(l, "%" + lay + "d", -42);
      add(l, "%" + lay + "x", 255L);
      add(l, "%" + lay + "X", (byte) -1);
      add(l, "%" + lay + "o", (short) 8);
      add(l, "%" + lay + "u", -1);
      add(l, "%" + lay + "f", -3.14159);
      add(l, "%" + lay + "e", 12345.678);
      add(l, "%" + lay + "G", 1.5e-10);
      add(l, "%" + lay + "g", new BigDecimal("1500000000000"));
      add(l, "%" + lay + "f", new BigDecimal("0.000012345"));
      add(l, "%" + lay + "A", 0.1);
      add(l, "%" + lay + "s", "some text, longer than sixteen");
      add(l, "%" + lay + "S", "Straße");
      add(l, "%" + lay + "s", new StringBuilder("builder"));
      add(l, "%" + lay + "S", new StringBuilder("builder, longer than sixteen"));
      add(l, "%" + lay + "s", new Ref.Prim(1234567));
      add(l, "%" + lay + "t", LocalDate.of(2024, 2, 29));
    }
    add(l, "%c", 'a');
    add(l, "%5c|%-5c", new Ref.Prim('ß'), 66);
    add(l, "%S", "an upper-cased text longer than sixteen chars");
    add(l, "%S", new char[] {'a', 'b', 'c'});
    add(l, "%S|%s", Seq.forArray("char array, longer than sixteen".toCharArray()), Seq.forArray("abc".toCharArray(), 1, 2));
    add(l, "%S|%s", Seq.lazy(b -> b.append("lazy text"), 9), Seq.lazy(b -> b.append("lazy text, longer than sixteen"), 30));
    add(l, "%.3s|%.20S", Seq.lazy(b -> b.append("lazy text"), 9), Seq.lazy(b -> b.append("lazy text, longer than sixteen"), 30));
    add(l, "%s", Seq.wrap("ab").append(Seq.repeated('z', 20)).prepend(Seq.ch('q')).upperCase().append(Seq.wrap("tail")));
    add(l, "%.5S", Seq.wrap("ab").append(Seq.repeated('z', 20)).prepend(Seq.ch('q')));
    add(l, "%40s", Seq.wrap("0123456789", 2, 8).append(Seq.forArray(new char[] {'a', 'b'})));
    add(l, "%s", "");
    add(l, "%3s", Seq.empty());
    add(l, "%s%s%s", null, true, new int[] {1, 2});
    add(l, "%s|%S", new Object[] {"elem", 1, null}, new Object[] {"b"});
    add(l, "%20s|%.4s", new String[] {"x", "yz"}, new double[] {1.5, -2});
    add(l, "%s|%S", java.util.Arrays.asList("p", 2), new byte[] {1, 2, 3});
    add(l, "%T", LocalDateTime.of(2024, 2, 29, 1, 2, 3));
    add(l, "%30t|", OffsetDateTime.of(2024, 2, 29, 1, 2, 3, 0, ZoneOffset.ofHours(-5)));
    add(l, "%t{yyyy-MM-dd'T'HH '}' mm}", LocalDateTime.of(2024, 2, 29, 1, 2, 3));
    add(l, "%T{'week of' uuuu}", LocalDate.of(1999, 12, 31));
    add(l, "%t", Instant.ofEpochSecond(1700000000L));
    add(l, "%n%%%5%", 1);
    add(l, "%p", C07.POINTEE);
    add(l, "%60p|%-60p", C07.POINTEE, null);
    add(l, "%*.*f|%-*d", 12, 3, 2.71828, 6, 7);
    add(l, "%*s|%.*s", -6, "ab", -1, "cdef");
    add(l, "%x %X %o", BigInteger.TEN.pow(30), BigInteger.TEN.pow(30), BigInteger.ONE.shiftLeft(90));
    add(l, "%f %e %g", Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY);
    add(l, "%500d|%-500s|%0500x", 1, "s", 2);
    add(l, "%.300f", 1.0 / 3);
    add(l, "%d items, %s and %.2f%% of %-8s total 0x%04X", 3, "more", 99.5, "the", 48879);
    add(l, "%s %S", "x\u0000y😀", "é😀i");
    add(l, "%1000s", Seq.repeated('k', 700).append(Seq.repeated('j', 17)));
    return l;
  }

  /** Formats that fail part-way, with the kind of failure and the text before it. */
  static List<Item> failing() {
    List<Item> l = new ArrayList<>();
    add(l, "before %d after", "not a number");
    add(l, "before %d", (Object) null);
    add(l, "%d and %f", 1, C07.POINTEE);
    add(l, "missing %d %d", 1);
    add(l, "%s %s %c", "a", "b", "");
    add(l, "%p", new Ref.Prim(5));
    add(l, "pad %20s then %t", "x", "no date");
    add(l, "%t", -1L);
    add(l, "%t{HH}", LocalDate.of(2024, 2, 29));
    add(l, "%*d", 70000, 1);
    add(l, "%a", BigDecimal.ONE);
    add(l, "%x", BigInteger.ONE.negate());
    add(l, "%300s%.*f", "wide", 65537, 1.0);
    return l;
  }
}
