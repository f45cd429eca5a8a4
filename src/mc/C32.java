package mc;

import io.fastprintf.PrintfException;
import io.fastprintf.util.Preconditions;
import io.fastprintf.util.Utils;
import java.math.BigDecimal;
import java.time.Instant;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.Iterator;
import java.util.LinkedHashSet;
import java.util.List;

/** The text helpers do what they say for every input. */
final class C32 extends Check {

  private static final class Bad extends RuntimeException {
    private static final long serialVersionUID = 1L;
  }

  /** An element: null, texts, numbers, one whose toString gives null, one whose toString throws. */
  static Object element(int k) {
    switch (k) {
      case 0:
        return "";
      case 1:
        return "a";
      case 2:
        return null;
      case 3:
        return -7;
      case 4:
        return "%s";
      case 5:
        return new Object() {
          @Override
          public String toString() {
            throw new Bad();
          }
        };
      default:
        return new StringBuilder("q, r");
    }
  }

  private static final int ELEMENTS = 7;

  static String text(Object o) {
    if (o == null) return "null";
    try {
      return o.toString();
    } catch (Bad e) {
      return "<" + o.getClass().getName() + '@' + Integer.toHexString(System.identityHashCode(o)) + " threw " + Bad.class.getName() + ">";
    }
  }

  private static void same(Explorer.Path p, String what, Object want, Object got) {
    p.trace();
    if (!want.equals(got)) p.fail(what + ": expected " + want + " but got " + got);
  }

  private static String thrown(Runnable r) {
    try {
      r.run();
      return "nothing";
    } catch (RuntimeException e) {
      return e.getClass().getSimpleName() + ": " + e.getMessage();
    }
  }

  /** Guava's lenientFormat, written anew: one pass over the placeholders. */
  static String lenient(String template, List<Object> args) {
    StringBuilder b = new StringBuilder();
    int next = 0;
    int at = 0;
    while (at < template.length()) {
      if (next < args.size() && template.startsWith("%s", at)) {
        b.append(text(args.get(next++)));
        at += 2;
      } else {
        b.append(template.charAt(at++));
      }
    }
    if (next < args.size()) {
      b.append(" [");
      for (int i = next; i < args.size(); i++) b.append(i > next ? ", " : "").append(text(args.get(i)));
      b.append(']');
    }
    return b.toString();
  }

  private static long[] longs() {
    LinkedHashSet<Long> s = new LinkedHashSet<>();
    for (long v = -300; v <= 300; v++) s.add(v);
    long p = 1;
    for (int i = 0; i < 19; i++, p *= 10) {
      for (int m = 1; m <= 9; m++) {
        for (int d = -2; d <= 2; d++) {
          s.add(p * m + d);
          s.add(-p * m + d);
        }
      }
    }
    for (int i = 0; i < 64; i++) {
      for (int d = -2; d <= 2; d++) {
        s.add((1L << i) + d);
        s.add(-(1L << i) + d);
      }
    }
    long[] r = new long[s.size()];
    int n = 0;
    for (long v : s) r[n++] = v;
    return r;
  }

  @Override
  void define() {
    phase(
        "chars",
        "every char: digit, lower case, upper-casing, alone and at every place of texts of length 1..4 with each of 4 neighbours",
        p -> {
          int hi = p.choose(256);
          for (int lo = 0; lo < 256; lo++) {
            char c = (char) (hi << 8 | lo);
            boolean digit = "0123456789".indexOf(c) >= 0;
            boolean lower = "abcdefghijklmnopqrstuvwxyz".indexOf(c) >= 0;
            char upper = lower ? "ABCDEFGHIJKLMNOPQRSTUVWXYZ".charAt("abcdefghijklmnopqrstuvwxyz".indexOf(c)) : c;
            same(p, "isDigit of " + (int) c, digit, Utils.isDigit(c));
            same(p, "isNotDigit of " + (int) c, !digit, Utils.isNotDigit(c));
            same(p, "isLowerCase of " + (int) c, lower, Utils.isLowerCase(c));
            same(p, "toUpperCase of " + (int) c, upper, Utils.toUpperCase(c));
            for (char other : new char[] {'A', 'b', 'é', '\ud83d'}) {
              char up = other == 'b' ? 'B' : other;
              for (int n = 1; n <= 4; n++) {
                for (int at = 0; at < n; at++) {
                  char[] in = new char[n];
                  Arrays.fill(in, other);
                  in[at] = c;
                  char[] want = new char[n];
                  Arrays.fill(want, up);
                  want[at] = upper;
                  String s = new String(in);
                  same(p, "toUpperCase of " + Show.text(s), new String(want), Utils.toUpperCase(s));
                  same(p, "toUpperCase says of the array " + Show.text(s), c != upper || n > 1 && other != up, Utils.toUpperCase(in));
                  same(p, "toUpperCase of the array " + Show.text(s), new String(want), new String(in));
                }
              }
            }
          }
          p.state("chars", hi);
        });
    phase(
        "texts to upper-case",
        "lengths 0..600 and around 2^10..2^17, the only small letters at up to two places",
        p -> {
          int n = p.flip() ? p.choose(601) : (1 << 10 + p.choose(8)) + p.choose(3) - 1;
          char filler = p.pick(new Character[] {'-', 'Z', 'ß', 'ā'});
          int[] places = {0, 1, n / 2, n - 2, n - 1};
          for (int a : places) {
            for (int b : places) {
              if (a < 0 || b < 0 || a >= n || b >= n) continue;
              char[] c = new char[n];
              Arrays.fill(c, filler);
              c[a] = 'x';
              c[b] = 'i';
              String s = new String(c);
              c[a] = 'X';
              c[b] = 'I';
              same(p, "toUpperCase of a text of " + n + " chars with small letters at " + a + " and " + b, new String(c), Utils.toUpperCase(s));
            }
          }
          String same = new String(new char[n]).replace('\0', filler);
          same(p, "toUpperCase of " + n + " chars without small letters", same, Utils.toUpperCase(same));
          p.state(n, filler);
        });
    phase(
        "sizes of numbers and times",
        longs().length + " longs around the powers of 2 and multiples of powers of 10, as long and as int",
        p -> {
          long v = longs()[p.choose(longs().length)];
          same(p, "size of " + v, Long.toString(v).length(), Utils.stringSize(v));
          same(p, "size of the int " + (int) v, Integer.toString((int) v).length(), Utils.stringSize((int) v));
          String got = thrown(() -> Utils.longToInstant(v));
          if (v < 0) {
            same(p, "time " + v, "IllegalArgumentException: The value must not be negative, but was: " + v, got);
          } else {
            same(p, "time " + v, new BigDecimal(v).compareTo(new BigDecimal("4294967295")) <= 0 ? Instant.ofEpochSecond(v) : Instant.ofEpochMilli(v), Utils.longToInstant(v));
          }
          p.state("number", v);
        });
    phase(
        "joining",
        "0..4 elements of 7 kinds x 4 separators x 9 containers x 3 texts in front",
        p -> {
          int n = p.choose(5);
          List<Object> l = new ArrayList<>();
          for (int i = 0; i < n; i++) l.add(element(p.choose(ELEMENTS)));
          String sep = p.pick(new String[] {"", ",", ", ", "%s"});
          int kind = p.choose(9);
          String pre = p.pick(new String[] {"", "x", "[, "});
          Object container;
          switch (kind) {
            case 0:
              container = l.toArray();
              break;
            case 1:
              container = l;
              break;
            case 2:
              container = l.iterator();
              break;
            case 3:
              container = Collections.unmodifiableCollection(l);
              break;
            case 4: // iterable only
              container = (Iterable<Object>) l::iterator;
              break;
            case 5: // hasNext asked again and again
              Iterator<Object> it = l.iterator();
              container =
                  new Iterator<Object>() {
                    @Override
                    public boolean hasNext() {
                      return it.hasNext() && it.hasNext();
                    }

                    @Override
                    public Object next() {
                      return it.next();
                    }
                  };
              break;
            case 6: // arrays of primitives
              int[] ints = new int[n];
              for (int i = 0; i < n; i++) {
                ints[i] = l.get(i) == null ? Integer.MIN_VALUE : i - 2;
                l.set(i, ints[i]);
              }
              container = ints;
              break;
            case 7:
              char[] chars = new char[n];
              for (int i = 0; i < n; i++) {
                chars[i] = l.get(i) == null ? '\0' : (char) ('a' + i);
                l.set(i, chars[i]);
              }
              container = chars;
              break;
            default: // neither: the text of the object
              container = n == 0 ? null : l.get(0) instanceof Integer ? l.get(0) : "one";
              if (container != null) {
                l = Collections.singletonList(container);
              }
          }
          StringBuilder want = new StringBuilder(pre);
          if (container != null) {
            for (int i = 0; i < l.size(); i++) want.append(i > 0 ? sep : "").append(text(l.get(i)));
          }
          StringBuilder sb = new StringBuilder(pre);
          StringBuilder back = Utils.join(sb, sep, container);
          if (back != sb) p.fail("join did not return the builder");
          same(p, "join of " + n + " elements in container " + kind, want.toString(), sb.toString());
          if (kind != 2 && kind != 5) same(p, "join of " + n + " elements in container " + kind + " to a string", want.substring(pre.length()), Utils.join(sep, container));
          p.state(kind, want.toString().replaceAll("@[0-9a-f]+", "@"));
        });
    phase(
        "messages",
        "templates of length 0..6 over 4 chars x 0..3 arguments of 7 kinds, as message, error and precondition",
        p -> {
          int len = p.choose(7);
          StringBuilder t = new StringBuilder();
          for (int i = 0; i < len; i++) t.append("%sa\n".charAt(p.choose(4)));
          String template = t.toString();
          for (int n = 0; n <= 3; n++) {
            int combos = (int) Math.pow(ELEMENTS, n);
            for (int k = 0; k < combos; k++) {
              if (len > 4 && k % ELEMENTS == k / ELEMENTS % ELEMENTS && n > 1) continue;
              Object[] args = new Object[n];
              for (int i = 0, r = k; i < n; i++, r /= ELEMENTS) args[i] = element(r % ELEMENTS);
              String want = lenient(template, Arrays.asList(args.clone()));
              same(p, "message of " + Show.text(template), want, Utils.lenientFormat(template, args.clone()));
              if (len > 3 && n > 1) continue;
              if (n != 1 || !(args[0] instanceof Throwable)) same(p, "error of " + Show.text(template), want, new PrintfException(template, args.clone()).getMessage());
              same(p, "checkArgument of " + Show.text(template), "IllegalArgumentException: " + want, thrown(() -> Preconditions.checkArgument(false, template, args.clone())));
              same(p, "checkArgument that holds", "nothing", thrown(() -> Preconditions.checkArgument(true, template, args.clone())));
            }
          }
          for (long v : new long[] {0, -1, Long.MIN_VALUE, Long.MAX_VALUE, 1L << 40}) {
            same(p, "checkLongArgument of " + Show.text(template), "IllegalArgumentException: " + lenient(template, Collections.singletonList(v)), thrown(() -> Preconditions.checkLongArgument(false, template, v)));
            same(p, "checkLongArgument that holds", "nothing", thrown(() -> Preconditions.checkLongArgument(true, template, v)));
          }
          same(p, "a null template", "null", Utils.lenientFormat(null, "x"));
          same(p, "a null array", lenient(template, Collections.singletonList("(Object[])null")), Utils.lenientFormat(template, (Object[]) null));
          Object o = new Object();
          if (Preconditions.checkNotNull(o, template) != o) p.fail("checkNotNull returned another object");
          same(p, "checkNotNull", "NullPointerException: Argument '" + template + "' cannot be null", thrown(() -> Preconditions.checkNotNull(null, template)));
          p.state("message", template);
        });
    final int[] indexes = {Integer.MIN_VALUE, Integer.MIN_VALUE + 1, -65536, -2, -1, 0, 1, 2, 3, 4, 65535, 65536, Integer.MAX_VALUE - 1, Integer.MAX_VALUE};
    phase(
        "indexes",
        "14 x 14 x 14 numbers as start, end and size",
        p -> {
          int a = indexes[p.choose(14)];
          int b = indexes[p.choose(14)];
          int size = indexes[p.choose(14)];
          if (size < 0) {
            p.state("index", size);
            return;
          }
          same(p, "index " + a + " of " + size, a >= 0 && a < size ? "nothing" : "IndexOutOfBoundsException: index: " + a + ", size: " + size, thrown(() -> Preconditions.checkPositionIndex(a, size)));
          same(p, "range " + a + ".." + b + " of " + size, 0 <= a && a <= b && b <= size ? "nothing" : "IndexOutOfBoundsException: start: " + a + ", end: " + b + ", size: " + size, thrown(() -> Preconditions.checkPositionIndexes(a, b, size)));
          p.state("index", a + ":" + b + ":" + size);
        });
  }
}
