package mc;

import io.fastprintf.seq.Seq;
import java.nio.CharBuffer;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import java.util.Optional;

/** %s %S %c. */
final class C06 extends Check {

  /** A CharSequence that is none of the library's. */
  static final class Own implements CharSequence {
    final String s;

    Own(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return new Own(s.substring(a, b));
    }

    @Override
    public String toString() {
      return s;
    }
  }

  static final int KINDS = 12;

  /** The text in different clothes. */
  static Object dress(int kind, final String s) {
    switch (kind) {
      case 0:
        return s;
      case 1:
        return new StringBuilder(s);
      case 2:
        return new StringBuffer(s);
      case 3:
        return CharBuffer.wrap(("<<" + s + ">>").toCharArray(), 2, s.length());
      case 4:
        return new Own(s);
      case 5:
        return s.toCharArray();
      case 6:
        return new Object() {
          @Override
          public String toString() {
            return s;
          }
        };
      case 7:
        return Seq.wrap(s);
      case 8:
        return Seq.wrap("xy" + s + "z", 2, 2 + s.length());
      case 9:
        return Seq.forArray(("a" + s + "bc").toCharArray(), 1, s.length());
      case 10:
        return Seq.lazy(b -> b.append(s), s.length());
      default:
        {
          int h = s.length() / 2;
          return Seq.wrap(s.substring(0, h)).append(Seq.wrap(s.substring(h)));
        }
    }
  }

  static final String ALPHABET = "aZz% é😀İ\u0000";

  @Override
  void define() {
    final String[] layouts = {"", "1", "3", "5", "-5", ".0", ".1", ".2", ".3", "6.2", "-6.2", "06", "#+ 06.3"};
    phase(
        "all short texts",
        "all strings to length " + (thorough ? 5 : 4) + " over 10 hostile chars x 12 kinds of argument x " + layouts.length + " layouts x s,S",
        p -> {
          int kind = p.choose(KINDS);
          int n = p.choose(thorough ? 6 : 5);
          char[] a = new char[n];
          for (int i = 0; i < n; i++) a[i] = ALPHABET.charAt(p.choose(n > 3 ? 7 : ALPHABET.length()));
          String s = new String(a);
          Impl.check(p, "%" + p.pick(layouts) + (p.flip() ? "S" : "s"), dress(kind, s));
        });
    phase(
        "every char",
        "all 65536 chars as content (alone, at both ends of a short and a long text) x s,S,c",
        p -> {
          char c = (char) (p.choose(256) << 8 | p.choose(256));
          switch (p.choose(8)) {
            case 0:
              Impl.check(p, "%c", c);
              break;
            case 1:
              Impl.check(p, "%3c|%-3c", new Ref.Prim(c), (int) c);
              break;
            case 2:
              Impl.check(p, "%c%c", String.valueOf(c), c + "x");
              break;
            case 3:
              Impl.check(p, "%S", c);
              break;
            case 4:
              Impl.check(p, "%S%s", c + "ab", "ab" + c);
              break;
            case 5:
              Impl.check(p, "%S", c + "abcdefghijklmnopqrstuvwxyz" + c);
              break;
            case 6:
              Impl.check(p, "%S%s", (c + "abcdefghijklmnopqrstuvwxyz" + c).toCharArray(), new StringBuilder().append(c).append(c));
              break;
            default:
              Impl.check(p, c == '%' ? "%%%S" : c + "%S" + (c == '%' ? "" : c), Seq.forArray(new char[] {'q', c, 'r', c}, 1, 3));
          }
        });
    phase(
        "every code point",
        "all 1,048,576 supplementary code points, 256 at a time, as text and cut at each end, as String, StringBuilder and char[] x s,S",
        p -> {
          int block = p.choose(4096);
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < 256; i++) b.appendCodePoint(0x10000 + block * 256 + i);
          String s = b.toString();
          int kind = p.choose(3);
          Object v = kind == 0 ? s : kind == 1 ? (Object) new StringBuilder(s) : io.fastprintf.seq.Seq.forArray(s.toCharArray());
          char c = p.flip() ? 'S' : 's';
          Impl.check(p, "%" + c, v);
          Impl.check(p, "%.511" + c, v);
          Impl.check(p, "%520.257" + c, v);
        });
    phase(
        "every length",
        "all lengths 0..80, 255..258, 1022..1026, 4095..4097, 65535..65537 x 12 kinds x widths/precisions around the length x s,S",
        p -> {
          int n = p.choose(95);
          int len = n <= 80 ? n : new int[] {255, 256, 257, 258, 1022, 1023, 1024, 1025, 1026, 4095, 4096, 4097, 65535, 65536}[n - 81];
          int kind = p.choose(KINDS);
          char[] a = new char[len];
          for (int i = 0; i < len; i++) a[i] = (char) ("azAZ{`09ÿ一".charAt((i * 7 + i / 10) % 10));
          String s = new String(a);
          int w = p.pick(new int[] {0, -1, 1, 2, 15, 16, 17});
          int q = p.pick(new int[] {0, -1, -2, 1, -15, -16, -17, -99999});
          int width = w == 0 ? 0 : Math.max(1, Math.min(65536, len + w));
          int prec = q == 0 ? -1 : Math.max(0, Math.min(65536, len + q));
          String fl = p.flip() ? "-" : "";
          Impl.check(p, directive(fl, width, prec, p.flip() ? 'S' : 's'), dress(kind, s));
        });
    final List<Object> objects = new ArrayList<>();
    objects.addAll(Arrays.<Object>asList(
        null, true, false, new Ref.Prim(true), new Ref.Prim(false), (byte) -128, new Ref.Prim((byte) 7), (short) -1, new Ref.Prim(Short.MAX_VALUE),
        0, 9, 10, -10, 99, 100, Integer.MIN_VALUE, Integer.MAX_VALUE, new Ref.Prim(0), new Ref.Prim(-1), new Ref.Prim(128), new Ref.Prim(-129),
        0L, Long.MIN_VALUE, Long.MAX_VALUE, new Ref.Prim(-9999999999L), new Ref.Prim(10000000000L),
        1.5f, new Ref.Prim(-0.0f), Float.NaN, 1e10, -0.0, new Ref.Prim(0.1), Double.POSITIVE_INFINITY, 'x', new Ref.Prim('一'),
        new java.math.BigDecimal("1E+3"), new java.math.BigInteger("-123456789012345678901"),
        new byte[0], new byte[] {1}, new byte[] {1, 2}, new byte[] {-1, 0, 127, -128}, new char[0], new char[] {'a', 'B'}, new boolean[] {true, false}, new boolean[0],
        new short[] {1, -2}, new int[] {}, new int[] {1, 2, 3}, new long[] {Long.MIN_VALUE}, new float[] {1.5f, Float.NaN}, new double[] {0.1, -0.0},
        new Object[0], new Object[] {null}, new Object[] {"a", null, 1, 'c'}, new String[] {"x", "", "y z"}, new Integer[] {1, null},
        new int[][] {{1}, {2, 3}}, new Object[] {"x", new int[] {1, 2}}, new Object[] {new Object[] {"in", null}, "out"}, new char[][] {{'a', 'b'}}, new byte[][] {{1, 2}}, new Object[] {Arrays.asList(1, 2), new String[0]},
        new Object[] {"[", "]"}, new Object[] {"", ""}, new Object[] {",", ", "}, new Object[] {new StringBuilder("sb"), new Own("own"), io.fastprintf.seq.Seq.wrap("seq")},
        Collections.emptyList(), Arrays.asList("a", null, 2), Optional.of("o"), Collections.singletonMap("k", "v"),
        Thread.State.NEW, String.class, new StringBuilder(), new StringBuffer("buf"), CharBuffer.wrap("charbuf"), new Own("own"), "",
        java.time.LocalDate.of(2024, 2, 29), java.time.Instant.EPOCH, java.util.UUID.fromString("123e4567-e89b-12d3-a456-426614174000"),
        java.util.Locale.ROOT, new java.util.concurrent.atomic.AtomicInteger(5)));
    final int[] widths = {0, 1, 2, 3, 4, 5, 6, 10, 15, 16, 17, 40};
    final int[] precs = {-1, 0, 1, 2, 3, 4, 5, 10, 40};
    phase(
        "all kinds of argument",
        objects.size() + " arguments of every type x 32 flag sets x " + widths.length + " widths x " + precs.length + " precisions x s,S,c",
        p -> {
          Object v = p.pick(objects);
          Impl.check(p, directive(p.pick(FLAG_SETS), p.pick(widths), p.pick(precs), "sSc".charAt(p.choose(3))), v);
        });
    phase(
        "objects that have only a text",
        OnlyText.OBJECTS + " objects (dynamic proxies of " + OnlyText.INTERFACES.size() + " interfaces among them) that fail when anything but their text is asked for x " + OnlyText.PLACES + " places, arrays and lists among them x " + OnlyText.FORMATS.length + " formats x cached or not",
        OnlyText::run);
    phase(
        "array sizes",
        "arrays of 9 element types, lists and nested arrays of all sizes 0..130 and 255..257, 511..513, 1023..1025, 4096, 20000 x 6 layouts x s,S",
        p -> {
          int n = p.choose(131 + 11);
          if (n > 130) n = new int[] {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 20000}[n - 131];
          Object a = array(p.choose(12), n);
          Impl.check(p, "%" + p.pick(new String[] {"", "80", "-80", ".76", ".77", "90.50"}) + (p.flip() ? "S" : "s"), a);
        });
    phase(
        "digit chunks",
        "all groups of 4 digits at all places of 18, in three surroundings, as int and long, boxed and primitive x %s",
        p -> {
          int group = p.choose(10000);
          int at = p.choose(15);
          char fill = p.pick(new Character[] {'0', '1', '9'});
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < at; i++) b.append(fill);
          b.append(String.format("%04d", group));
          while (b.length() < 18) b.append(fill);
          long v = Long.parseLong(b.toString());
          Impl.check(p, "%s", new Ref.Prim(v));
          Impl.check(p, "%s", -v);
          Impl.check(p, "%s", new Ref.Prim((int) (v % 1000000000L)));
        });
    phase(
        "integers as text",
        "all integers ±2^k±2, ±10^k±2, d*10^k of int and long, boxed and primitive x %s, %3.2s, %S",
        p -> {
          java.math.BigInteger b = p.pick(INTS);
          String fmt = p.pick(new String[] {"%s", "%6.3s", "%-30S|", "%.25s"});
          Object v;
          switch (p.choose(4)) {
            case 0:
              v = b.longValue();
              break;
            case 1:
              v = new Ref.Prim(b.longValue());
              break;
            case 2:
              v = b.intValue();
              break;
            default:
              v = new Ref.Prim(b.intValue());
          }
          Impl.check(p, fmt, v);
        });
    assumptions.add("An argument's toString returns a String and a CharSequence's toString agrees with its chars.");
  }

  private static Object array(int kind, int n) {
    Class<?>[] types = {byte.class, char.class, boolean.class, short.class, int.class, long.class, float.class, double.class, Object.class, String.class};
    if (kind >= types.length) {
      List<Object> l = new ArrayList<>();
      for (int i = 0; i < n; i++) l.add(i % 5 == 4 ? null : kind == 10 ? (Object) i : (Object) Arrays.asList(i));
      return kind == 10 ? l : l.toArray();
    }
    Object a = java.lang.reflect.Array.newInstance(types[kind], n);
    for (int i = 0; i < n; i++) {
      Object v;
      switch (kind) {
        case 0:
          v = (byte) (i * 37 - 5);
          break;
        case 1:
          v = (char) ("aZß€".charAt(i % 4));
          break;
        case 2:
          v = i % 3 == 1;
          break;
        case 3:
          v = (short) (i * 517 - 3);
          break;
        case 4:
          v = i * 7654321 - 9;
          break;
        case 5:
          v = i * 765432109876L - 9;
          break;
        case 6:
          v = i / 8f - 3;
          break;
        case 7:
          v = i / 10.0 - 3;
          break;
        case 8:
          v = i % 4 == 3 ? null : i % 4 == 2 ? (Object) "t" : (Object) i;
          break;
        default:
          v = i % 7 == 6 ? null : "s" + i;
      }
      java.lang.reflect.Array.set(a, i, v);
    }
    return a;
  }

  private static final java.math.BigInteger[] INTS = Values.integers(64, 2, true).toArray(new java.math.BigInteger[0]);

  /** The model's %s and %c against the C library. */
  @Override
  void after(Explorer x) throws Exception {
    Glibc g = new Glibc();
    for (String fl : new String[] {"", "-"}) {
      for (int w = 0; w <= 20; w++) {
        for (int q = -1; q <= 20; q++) {
          String d = directive(fl, w, q, 's');
          for (String s : new String[] {"", "a", "hello", "exactly sixteen!", "more than sixteen chars"}) g.add('s', d, s, d, s);
        }
        String d = directive(fl, w, -1, 'c');
        for (char c = ' '; c <= '~'; c++) g.add('c', d, "" + c, d, c);
      }
    }
    g.run(x);
  }
}
