package mc;

import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Iterator;
import java.util.List;
import java.util.NoSuchElementException;

/** Sequence algebra: every expression over Seq equals the same expression over String. */
final class C16 extends Check {

  /** A sequence and the text it must be. */
  static final class E {
    final Seq seq;
    final String text;
    final String how;

    E(Seq seq, String text, String how) {
      this.seq = seq;
      this.text = text;
      this.how = how;
    }
  }

  static final int LEAVES = 30;

  private static E e(Seq s, String t, String how) {
    return new E(s, t, how);
  }

  /** The leaves; contents differ so that order matters. */
  static E leaf(int k) {
    switch (k) {
      case 0:
        return e(Seq.empty(), "", "empty");
      case 1:
        return e(Seq.ch('a'), "a", "ch(a)");
      case 2:
        return e(Seq.ch('é'), "é", "ch(é)");
      case 3:
        return e(Seq.wrap("bC"), "bC", "wrap(bC)");
      case 4:
        return e(Seq.forArray("Xyz{`".toCharArray()), "Xyz{`", "forArray");
      case 5:
        return e(Seq.lazy(b -> b.append("lM"), 2), "lM", "lazy2");
      case 6:
        return e(Seq.repeated('r', 3), "rrr", "repeated(r,3)");
      case 7:
        return e(Seq.wrap("0123abcdefghijklmnopq6789", 4, 21), "abcdefghijklmnopq", "view17");
      case 8:
        return e(Seq.wrap("--abcDE--", 2, 7), "abcDE", "view5");
      case 9:
        return e(Seq.forArray("##pqrSt#".toCharArray(), 2, 5), "pqrSt", "array[2,5]");
      case 10:
        return e(Seq.wrap("b"), "b", "wrap(b)");
      case 11:
        return e(Seq.forArray(new char[] {'v'}), "v", "forArray1");
      case 12:
        return e(Seq.forArray(new char[] {'v', 'w'}, 1, 0), "", "forArray empty");
      case 13:
        return e(Seq.lazy(b -> b.append('l'), 1), "l", "lazy1");
      case 14:
        return e(Seq.lazy(b -> b.append("lazy of twenty chars"), 20), "lazy of twenty chars", "lazy20");
      case 15:
        return e(Seq.repeated('z', 16), Ref.repeat('z', 16), "repeated(z,16)");
      case 16:
        return e(Seq.repeated('一', 17), Ref.repeat('一', 17), "repeated(一,17)");
      case 17:
        return e(Seq.repeated('R', 15), Ref.repeat('R', 15), "repeated(R,15)");
      case 18:
        return e(Seq.wrap("fifteen chars !"), "fifteen chars !", "wrap15");
      case 19:
        return e(Seq.wrap("sixteen chars !!"), "sixteen chars !!", "wrap16");
      case 20:
        return e(Seq.wrap("azAZ@[`{ÿßİ一\u0000😀x"), "azAZ@[`{ÿßİ一\u0000😀x", "wrap odd");
      case 21:
        return e(Seq.wrap("tail only", 5), "only", "wrap(s,5)");
      case 22:
        return e(Seq.wrap("none", 2, 2), "", "wrap empty view");
      case 23:
        return e(Seq.wrap("none", 3, 4), "e", "wrap view1");
      case 24:
        return e(Seq.wrap("head", 0, 3), "hea", "wrap(0,3)");
      case 25:
        return e(Seq.forArray("__an array of twenty char__".toCharArray(), 2, 23), "an array of twenty char", "array23");
      case 26:
        return e(Seq.lazy(b -> {}, 0), "", "lazy0");
      case 27:
        return e(Seq.repeated('q', 1), "q", "repeated(q,1)");
      case 28:
        return e(Seq.wrap(""), "", "wrap()");
      default:
        return e(Seq.repeated('\u0080', 2), "\u0080\u0080", "repeated(0x80,2)");
    }
  }

  private static final int[] SMALL = {0, 1, 3, 4, 5, 6, 7, 9, 14};

  static E upper(E x) {
    return e(x.seq.upperCase(), Ref.upper(x.text), "upper(" + x.how + ")");
  }

  static E sub(E x, int a, int b) {
    return e(x.seq.subSequence(a, b), x.text.substring(a, b), "sub(" + x.how + "," + a + "," + b + ")");
  }

  /** 0 append, 1 prepend, 2 concat, 3 concat reversed. */
  static E binary(int op, E x, E y) {
    switch (op) {
      case 0:
        return e(x.seq.append(y.seq), x.text + y.text, "(" + x.how + " + " + y.how + ")");
      case 1:
        return e(x.seq.prepend(y.seq), y.text + x.text, "(" + x.how + " after " + y.how + ")");
      case 2:
        return e(Seq.concat(x.seq, y.seq), x.text + y.text, "concat(" + x.how + "," + y.how + ")");
      default:
        return e(Seq.concat(y.seq, x.seq), y.text + x.text, "concat(" + y.how + "," + x.how + ")");
    }
  }

  /** Compares every observation. */
  static void observe(Explorer.Path p, E x, boolean deep) throws Exception {
    Seq s = x.seq;
    String t = x.text;
    int n = t.length();
    if (s.length() != n) p.fail(x.how + " has length " + s.length() + ", expected " + n);
    if (s.isEmpty() != t.isEmpty()) p.fail(x.how + " isEmpty() is " + s.isEmpty());
    // to builders first: a lazy sequence is then not yet rendered
    StringBuilder b = new StringBuilder("P");
    s.appendTo(b);
    same(p, x, "appendTo(StringBuilder)", "P" + t, b.toString());
    C10.Own fast = new C10.Own(false);
    fast.got.append('P');
    s.appendTo((Appendable) fast);
    same(p, x, "appendTo(Appendable)", "P" + t, fast.got.toString());
    for (int i = 0; i < n; i++) {
      if (s.charAt(i) != t.charAt(i)) p.fail(x.how + " charAt(" + i + ") is " + Show.text("" + s.charAt(i)) + ", expected " + Show.text("" + t.charAt(i)));
    }
    same(p, x, "toString()", t, s.toString());
    C10.Own slow = new C10.Own(true);
    s.appendTo((Appendable) slow);
    same(p, x, "second appendTo(Appendable)", t, slow.got.toString());
    b.setLength(0);
    s.appendTo(b);
    same(p, x, "second appendTo(StringBuilder)", t, b.toString());
    String probe = "aAzZeErRlLbBé一{`#\u0000 ";
    for (int i = 0; i < probe.length() + Math.min(n, 24); i++) {
      char c = i < probe.length() ? probe.charAt(i) : t.charAt(n - 1 - (i - probe.length()));
      if (s.indexOf(c) != t.indexOf(c)) p.fail(x.how + " indexOf('" + Show.text("" + c) + "') is " + s.indexOf(c) + ", expected " + t.indexOf(c));
      if (s.startsWith(c) != t.startsWith("" + c)) p.fail(x.how + " startsWith('" + Show.text("" + c) + "') is " + s.startsWith(c));
    }
    if (s.isAtomic() != s instanceof AtomicSeq) p.fail(x.how + " isAtomic() is " + s.isAtomic());
    parts(p, x);
    if (!s.equals(s) || s.hashCode() != s.hashCode() || s.equals(null)) p.fail(x.how + " is not equal to itself");
    if (deep) {
      // what the library does with any CharSequence
      same(p, x, "chars()", t, s.chars().collect(StringBuilder::new, (c, v) -> c.append((char) v), StringBuilder::append).toString());
      same(p, x, "codePoints()", t, s.codePoints().collect(StringBuilder::new, StringBuilder::appendCodePoint, StringBuilder::append).toString());
      if (!t.contentEquals(s)) p.fail(x.how + " has not the content " + Show.text(t));
      same(p, x, "append of a part", t.substring(n / 3, n - n / 3), new StringBuilder().append((CharSequence) s, n / 3, n - n / 3).toString());
      same(p, x, "insert", "<" + t + ">", new StringBuilder("<>").insert(1, (CharSequence) s).toString());
      reject(p, x, -1, 0);
      reject(p, x, 0, n + 1);
      reject(p, x, 1, 0);
      reject(p, x, n + 1, n + 1);
      reject(p, x, n, n - 1);
      reject(p, x, Integer.MIN_VALUE, Integer.MAX_VALUE);
      rejectAt(p, x, -1);
      rejectAt(p, x, n);
      rejectAt(p, x, Integer.MAX_VALUE);
      if (s.dup().length() != n || !s.dup().toString().equals(t)) p.fail(x.how + " dup() is " + s.dup());
      if (s.map(q -> q) != s) p.fail(x.how + " map(identity) is another object");
      for (int i = 0; i <= n; i++) {
        for (int k = i; k <= n; k++) {
          if (n > 14 && i > 2 && i < n - 2 && (i & 7) != 0 && k - i > 2) continue;
          CharSequence q = s.subSequence(i, k);
          if (q.length() != k - i || !q.toString().equals(t.substring(i, k))) {
            p.fail(x.how + " subSequence(" + i + "," + k + ") is " + Show.text(q.toString()) + " of length " + q.length());
          }
        }
      }
    }
  }

  /** A composed sequence can be taken apart: as many parts as announced, together the text. */
  private static void parts(Explorer.Path p, E x) {
    int count = 1;
    if (x.seq instanceof Iterable) {
      StringBuilder all = new StringBuilder();
      count = 0;
      Iterator<?> it = ((Iterable<?>) x.seq).iterator();
      while (it.hasNext()) {
        all.append((CharSequence) (AtomicSeq) it.next());
        if (++count > x.text.length() + 64) p.fail(x.how + " has more parts than chars");
      }
      same(p, x, "the parts together", x.text, all.toString());
      if (x.text.length() <= 64) turns(p, x, (Iterable<?>) x.seq, it);
      try {
        it.next();
        p.fail(x.how + " has a part behind its last one");
      } catch (NoSuchElementException e) {
        // as it should be
      }
    }
    if (x.seq.elementCount() != count) p.fail(x.how + " elementCount() is " + x.seq.elementCount() + ", has " + count + " parts");
  }

  /** Iterators of one sequence do not know of each other, nor of the sequence being read meanwhile. */
  private static void turns(Explorer.Path p, E x, Iterable<?> parts, Iterator<?> over) {
    Iterator<?> a = parts.iterator();
    Iterator<?> b = parts.iterator();
    StringBuilder one = new StringBuilder();
    StringBuilder two = new StringBuilder();
    while (a.hasNext()) {
      one.append(a.next());
      if (!b.hasNext()) p.fail(x.how + " has fewer parts for a second iterator");
      same(p, x, "read between two parts", x.text, x.seq.toString());
      two.append(b.next());
      if (!x.text.isEmpty() && x.seq.charAt(x.text.length() - 1) != x.text.charAt(x.text.length() - 1)) p.fail(x.how + " changed between two parts");
      Iterator<?> c = parts.iterator();
      if (c.hasNext() && !x.text.startsWith(c.next().toString())) p.fail(x.how + " begins elsewhere for a third iterator");
    }
    if (b.hasNext() || over.hasNext()) p.fail(x.how + " has more parts for a second iterator");
    same(p, x, "the parts of an iterator", x.text, one.toString());
    same(p, x, "the parts of a second iterator", x.text, two.toString());
  }

  private static void same(Explorer.Path p, E x, String what, String want, String got) {
    if (!want.equals(got)) p.fail(x.how + " " + what + " gave \"" + Show.text(got) + "\", expected \"" + Show.text(want) + "\"");
  }

  private static void reject(Explorer.Path p, E x, int a, int b) {
    try {
      x.seq.subSequence(a, b);
    } catch (RuntimeException ex) {
      return;
    }
    p.fail(x.how + " accepted subSequence(" + a + "," + b + ")");
  }

  private static void rejectAt(Explorer.Path p, E x, int i) {
    try {
      x.seq.charAt(i);
    } catch (RuntimeException ex) {
      return;
    }
    p.fail(x.how + " accepted charAt(" + i + ")");
  }

  /** One operation on the expression so far. */
  private static E step(Explorer.Path p, E x, int[] operands) {
    int n = x.text.length();
    int op = p.choose(4 + operands.length * 4);
    if (op == 0) return upper(x);
    if (op == 1) {
      int[] at = {0, 1, n / 2, n - 1, n};
      int a = Math.max(0, Math.min(n, at[p.choose(5)]));
      int b = Math.max(a, Math.min(n, at[p.choose(5)]));
      return sub(x, a, b);
    }
    if (op == 2) return binary(0, x, x);
    if (op == 3) return binary(1, x, x);
    return binary((op - 4) % 4, x, leaf(operands[(op - 4) / 4]));
  }

  private static final int[] ALL_LEAVES = new int[LEAVES];

  static {
    for (int i = 0; i < LEAVES; i++) ALL_LEAVES[i] = i;
  }

  private static void finish(Explorer.Path p, E x, E[] operands, boolean deep) throws Exception {
    observe(p, x, deep);
    for (E o : operands) {
      if (o.seq.length() != o.text.length() || !o.seq.toString().equals(o.text)) p.fail("building " + x.how + " changed " + o.how + " to " + Show.text(o.seq.toString()));
    }
    p.trace();
    p.state(x.how, x.seq.toString());
    p.sample(() -> x.how + " = " + Show.text(x.text));
  }

  @Override
  void define() {
    olderToo = true;
    sequentialPhase(
        "unused memory collected between reads",
        "all first uses x all second uses of sequences of all kinds, unreferenced and softly referenced objects collected in between",
        p -> {
          int first = p.choose(Scenes.SEQUENCE_USES);
          List<Scenes.Calls> all = new ArrayList<>();
          for (int kind = 0; kind < Scenes.SEQUENCES; kind++) {
            for (int second = 0; second < Scenes.SEQUENCE_USES; second++) all.add(Scenes.usedTwice(kind, first, second));
          }
          for (int round = 0; round < 2; round++) {
            for (Scenes.Calls c : all) {
              if (round == 0) c.setup();
              String got = c.run(round);
              p.trace();
              p.state(c.name + round, got);
              if (!got.equals(c.expected(round))) p.fail(c.name + ": use " + (round + 1) + " gives " + Show.text(got) + " instead of " + Show.text(c.expected(round)));
            }
            System.gc();
          }
        });
    phase(
        "leaves and pairs",
        LEAVES + " leaves, then up to 2 operations of {upperCase, subSequence at 5x5 bounds, append, prepend, concat both ways with itself or each leaf}; all sub-sequences of each result",
        p -> {
          E x = leaf(p.choose(LEAVES));
          E first = x;
          int n = p.choose(3);
          E mid = x;
          for (int i = 0; i < n; i++) {
            mid = x;
            x = step(p, x, i == 0 || thorough ? ALL_LEAVES : SMALL);
          }
          finish(p, x, new E[] {first, mid}, true);
        });
    final int depth = thorough ? 4 : 3;
    phase(
        "spines",
        "all expressions of " + depth + " operations on " + SMALL.length + " leaves",
        p -> {
          E x = leaf(SMALL[p.choose(SMALL.length)]);
          int[] few = {0, 3, 5, 7, 9};
          E before = x;
          for (int i = 0; i < depth; i++) {
            before = x;
            x = step(p, x, i == 0 && !thorough ? SMALL : few);
          }
          finish(p, x, new E[] {before}, false);
        });
    phase(
        "trees",
        "(l1 op l2) op (l3 op l4) over " + SMALL.length + " leaves and 5 operations, then nothing, upperCase or a sub-sequence",
        p -> {
          E[] l = new E[4];
          for (int i = 0; i < 4; i++) l[i] = leaf(SMALL[p.choose(SMALL.length)]);
          E a = tree(p.choose(4), l[0], l[1]);
          E b = tree(p.choose(4), l[2], l[3]);
          E x = binary(p.choose(3), a, b);
          int n = x.text.length();
          switch (p.choose(4)) {
            case 0:
              break;
            case 1:
              x = upper(x);
              break;
            case 2:
              x = sub(x, n / 3, n - n / 4);
              break;
            default:
              x = sub(x, Math.min(1, n), n);
              x = binary(0, x, upper(a));
          }
          finish(p, x, new E[] {a, b}, false);
        });
    phase(
        "joins",
        "join of all lists of 0..4 leaves out of " + SMALL.length + " (all leaves for 0..3), then nothing, upperCase, append, prepend or sub-sequence; list changed afterwards",
        p -> {
          int first = p.choose(LEAVES);
          int n = p.choose(5);
          List<AtomicSeq> list = new ArrayList<>();
          StringBuilder t = new StringBuilder();
          StringBuilder how = new StringBuilder("join");
          for (int i = 0; i < n; i++) {
            E l = leaf(i == 0 ? first : n == 3 && !thorough ? SMALL[p.choose(SMALL.length)] : n < 4 ? p.choose(LEAVES) : SMALL[p.choose(SMALL.length)]);
            list.add((AtomicSeq) l.seq);
            t.append(l.text);
            how.append(',').append(l.how);
          }
          E x = e(Seq.join(list), t.toString(), how.toString());
          list.add(Seq.ch('!'));
          list.set(0, Seq.ch('?'));
          int len = x.text.length();
          E o = x;
          switch (p.choose(6)) {
            case 0:
              break;
            case 1:
              x = upper(x);
              break;
            case 2:
              x = binary(0, x, leaf(3));
              break;
            case 3:
              x = binary(1, x, leaf(7));
              break;
            case 4:
              x = sub(x, len / 3, len - len / 3);
              break;
            default:
              x = upper(sub(binary(2, x, x), len / 2, len + len / 2));
          }
          finish(p, x, new E[] {o}, n < 3);
        });
    phase(
        "long chains",
        "all patterns of 10 append/prepend steps; chains of 1000, 20000 and 100000 parts in 4 patterns",
        p -> {
          int k = p.choose(1024 + 12);
          if (k < 1024) {
            E x = leaf(3);
            for (int i = 0; i < 10; i++) x = binary(k >> i & 1, x, leaf(SMALL[i % SMALL.length]));
            finish(p, x, new E[0], false);
            return;
          }
          int n = new int[] {1000, 20000, 100000}[(k - 1024) / 4];
          int pattern = (k - 1024) % 4;
          Seq s = Seq.wrap("mid");
          StringBuilder t = new StringBuilder();
          StringBuilder head = new StringBuilder();
          for (int i = 0; i < n; i++) {
            char c = (char) ('a' + i % 26);
            boolean app = pattern == 0 || pattern == 2 && (i & 1) == 0 || pattern == 3 && i % 7 < 4;
            if (app) {
              s = s.append(Seq.ch(c));
              t.append(c);
            } else {
              s = Seq.concat(Seq.ch(c), s);
              head.append(c);
            }
          }
          String want = head.reverse() + "mid" + t;
          p.trace();
          p.state(n, pattern);
          if (s.length() != want.length() || !s.toString().equals(want)) p.fail("chain of " + n + " pattern " + pattern + " is wrong");
          if (!s.upperCase().toString().equals(Ref.upper(want))) p.fail("upper case of a chain of " + n + " pattern " + pattern + " is wrong");
          Seq mid = s.subSequence(n / 3, n - n / 5);
          if (mid.length() != n - n / 5 - n / 3 || !mid.toString().equals(want.substring(n / 3, n - n / 5))) p.fail("sub-sequence of a chain of " + n + " pattern " + pattern + " is wrong");
          if (s.charAt(n / 2) != want.charAt(n / 2) || s.indexOf('#') != -1 || s.charAt(n) != want.charAt(n)) p.fail("charAt of a chain of " + n + " pattern " + pattern + " is wrong");
        });
    phase(
        "leaf lengths",
        "leaves of 8 kinds and all lengths 1..300, 511..513, 1023..1025, 4095..4097, 65535..65537, in mixed, lower-case and no letters, then nothing, upperCase, a cut at either end, or both",
        p -> {
          int kind = p.choose(8);
          int k = p.choose(312);
          int n = k < 300 ? k + 1 : new int[] {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}[k - 300];
          String cycle = p.pick(new String[] {"abcXYZ{`@[zA-é", "qwertyuiopasd", "0123456789.,"});
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < n; i++) b.append(cycle.charAt((i * 5 + i / 13) % cycle.length()));
          String t = b.toString();
          E x;
          switch (kind) {
            case 0:
              x = e(Seq.wrap(t), t, "wrap" + n);
              break;
            case 1:
              x = e(Seq.wrap("uU" + t + "vV", 2, 2 + n), t, "view" + n);
              break;
            case 2:
              x = e(Seq.forArray(t.toCharArray()), t, "array" + n);
              break;
            case 3:
              x = e(Seq.forArray(("u" + t + "vV").toCharArray(), 1, n), t, "array[1," + n + "]");
              break;
            case 4:
              x = e(Seq.lazy(sb -> sb.append(t), n), t, "lazy" + n);
              break;
            case 5:
              x = e(Seq.repeated(t.charAt(0), n), Ref.repeat(t.charAt(0), n), "repeated" + n);
              break;
            case 6:
              x = e(Seq.wrap(t, 0, n / 2).append(Seq.wrap(t, n / 2)), t, "halves" + n);
              break;
            default:
              x = e(Seq.join(Arrays.asList(Seq.wrap(t, 0, n / 3), Seq.forArray(t.toCharArray(), n / 3, n - n / 3))), t, "joined" + n);
          }
          int op = p.choose(6);
          E y = op == 0 ? x : op == 1 ? upper(x) : op == 2 ? sub(x, 1, n) : op == 3 ? sub(x, 0, n - 1) : op == 4 ? sub(upper(x), n / 2, n) : upper(sub(x, n > 1 ? 1 : 0, n));
          if (n > 1100 && kind > 5 && op > 1) return;
          finish(p, y, new E[] {x}, false);
        });
    phase(
        "part counts",
        "joins, appends, prepends and balanced trees of n parts, n = 1..130, 255..257, 511..513, 1023..1025, of lengths 0, 1, 2 and 17 mixed, then nothing, upperCase or cuts",
        p -> {
          int k = p.choose(139);
          int n = k < 130 ? k + 1 : new int[] {255, 256, 257, 511, 512, 513, 1023, 1024, 1025}[k - 130];
          int mix = p.choose(3);
          List<AtomicSeq> parts = new ArrayList<>();
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < n; i++) {
            E l = leaf(mix == 0 ? new int[] {1, 3, 6}[i % 3] : mix == 1 ? new int[] {7, 0, 10, 4}[i % 4] : i % 30);
            parts.add((AtomicSeq) l.seq);
            b.append(l.text);
          }
          String t = b.toString();
          int shape = p.choose(4);
          Seq s = null;
          if (shape == 0) {
            s = Seq.join(parts);
          } else if (shape == 1) {
            for (AtomicSeq a : parts) s = s == null ? a : s.append(a);
          } else if (shape == 2) {
            for (int i = n - 1; i >= 0; i--) s = s == null ? parts.get(i) : s.prepend(parts.get(i));
          } else {
            List<Seq> level = new ArrayList<Seq>(parts);
            while (level.size() > 1) {
              List<Seq> next = new ArrayList<>();
              for (int i = 0; i < level.size(); i += 2) next.add(i + 1 < level.size() ? Seq.concat(level.get(i), level.get(i + 1)) : level.get(i));
              level = next;
            }
            s = level.get(0);
          }
          E x = e(s, t, "shape " + shape + " of " + n + " parts, mix " + mix);
          int len = t.length();
          int op = p.choose(5);
          E y = op == 0 ? x : op == 1 ? upper(x) : op == 2 ? sub(x, Math.min(1, len), len) : op == 3 ? sub(x, 0, Math.max(0, len - 1)) : sub(x, len / 3, len - len / 4);
          finish(p, y, new E[] {x}, false);
        });
    phase(
        "every char",
        "all 65536 chars as ch, repeated 2/16/17, in views, arrays and lazy text of 3 and 20 chars x upperCase",
        p -> {
          char c = (char) (p.choose(256) << 8 | p.choose(256));
          String t3 = "a" + c + "Z";
          String t20 = "abcdefgh" + c + "ijklmnopqr" + c;
          E x;
          switch (p.choose(9)) {
            case 0:
              x = e(Seq.ch(c), "" + c, "ch");
              break;
            case 1:
              x = e(Seq.repeated(c, 2), "" + c + c, "repeated 2");
              break;
            case 2:
              x = e(Seq.repeated(c, 17), Ref.repeat(c, 17), "repeated 17");
              break;
            case 3:
              x = e(Seq.wrap(t3), t3, "wrap 3");
              break;
            case 4:
              x = e(Seq.wrap("#" + t20 + "#", 1, 21), t20, "view 20");
              break;
            case 5:
              x = e(Seq.forArray(t3.toCharArray()), t3, "array 3");
              break;
            case 6:
              x = e(Seq.forArray(("#" + t20).toCharArray(), 1, 20), t20, "array 20");
              break;
            case 7:
              x = e(Seq.lazy(b -> b.append(t20), 20), t20, "lazy 20");
              break;
            default:
              x = e(Seq.wrap(t3).append(Seq.ch(c)).prepend(Seq.repeated(c, 2)), "" + c + c + t3 + c, "concat");
          }
          x = e(x.seq, x.text, x.how + " of char " + (int) c);
          if (p.flip()) x = upper(x);
          Seq s = x.seq;
          String t = x.text;
          StringBuilder b = new StringBuilder();
          s.appendTo(b);
          same(p, x, "appendTo(StringBuilder)", t, b.toString());
          C10.Own own = new C10.Own(false);
          s.appendTo((Appendable) own);
          same(p, x, "appendTo(Appendable)", t, own.got.toString());
          same(p, x, "toString()", t, s.toString());
          char up = c >= 'a' && c <= 'z' ? (char) (c - 32) : c;
          for (char q : new char[] {c, up, 'a', 'A', 'z', 'Z', (char) (c ^ 32), (char) (c + 1)}) {
            if (s.indexOf(q) != t.indexOf(q)) p.fail(x.how + " indexOf(" + (int) q + ") is " + s.indexOf(q) + ", expected " + t.indexOf(q));
            if (s.startsWith(q) != (t.charAt(0) == q)) p.fail(x.how + " startsWith(" + (int) q + ") is wrong");
          }
          for (int i = 0; i < t.length(); i++) if (s.charAt(i) != t.charAt(i)) p.fail(x.how + " charAt(" + i + ") is " + (int) s.charAt(i));
          Seq one = s.subSequence(t.length() - 1, t.length());
          if (!one.toString().equals(t.substring(t.length() - 1))) p.fail(x.how + " last char alone is " + Show.text(one.toString()));
          p.trace();
          p.state(x.how, t);
        });
    phase(
        "equality",
        "all pairs of leaves and their upper cases, sub-sequences and upper cases of those, the leaf hashed, read or untouched before: equal sequences have the same text and hash, equality is symmetric",
        p -> {
          E x = some(p.choose(LEAVES * 6), p.choose(3));
          E y = some(p.choose(LEAVES * 6), 0);
          if (p.flip() && x.seq.hashCode() != x.seq.hashCode()) p.fail(x.how + " changed its hash");
          p.trace();
          p.state(x.how, y.how);
          boolean eq = x.seq.equals(y.seq);
          if (eq != y.seq.equals(x.seq)) p.fail("equality of " + x.how + " and " + y.how + " is not symmetric");
          if (eq && !x.text.equals(y.text)) p.fail(x.how + " and " + y.how + " are called equal");
          if (eq && x.seq.hashCode() != y.seq.hashCode()) p.fail(x.how + " and " + y.how + " are equal but their hashes differ");
        });
    phase(
        "invalid factory arguments",
        "all (start, end/length) in -2..7 and int extremes for views and arrays of 5 chars; repeated counts; lazy lengths",
        p -> {
          int[] v = {-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, Integer.MAX_VALUE, Integer.MIN_VALUE, Integer.MAX_VALUE - 1};
          int a = p.pick(v);
          int b = p.pick(v);
          int kind = p.choose(5);
          String t = "vwxyz";
          String want;
          Seq got = null;
          switch (kind) {
            case 0:
              want = a >= 0 && b >= a && b <= 5 ? t.substring(a, b) : null;
              break;
            case 1:
              want = a >= 0 && a <= 5 && b >= 0 && (long) a + b <= 5 ? t.substring(a, a + b) : null;
              break;
            case 2:
              want = a >= 0 && a <= 5 ? t.substring(a) : null;
              break;
            case 3:
              if (a > 1000) return;
              want = a >= 1 ? Ref.repeat('q', a) : null;
              break;
            default:
              if (a > 7) return;
              want = a < 0 ? null : Ref.repeat('w', a);
          }
          try {
            switch (kind) {
              case 0:
                got = Seq.wrap(t, a, b);
                break;
              case 1:
                got = Seq.forArray(t.toCharArray(), a, b);
                break;
              case 2:
                got = Seq.wrap(t, a);
                break;
              case 3:
                got = Seq.repeated('q', a);
                break;
              default:
                got = Seq.lazy(s -> s.append(Ref.repeat('w', a)), a);
            }
          } catch (RuntimeException ex) {
            if (want != null) p.fail("factory " + kind + "(" + a + "," + b + ") threw " + ex);
          }
          p.trace();
          p.state(kind * 1000003L + a * 31L + b);
          if (want == null && got != null) p.fail("factory " + kind + "(" + a + "," + b + ") was accepted: " + got);
          if (want != null) observe(p, e(got, want, "factory " + kind + "(" + a + "," + b + ")"), true);
        });
    phase(
        "numbers of parts near the limit",
        "sequences of 1..5 parts, some or all empty, put together with themselves 0..40 times by append, prepend and concat: the right length and number of parts, or refused when no int can hold one of them",
        p -> {
          List<AtomicSeq> parts = new ArrayList<>();
          long count = 1 + p.choose(5);
          long length = 0;
          for (int i = 0; i < count; i++) {
            boolean full = p.flip();
            parts.add(full ? Seq.ch('x') : Seq.empty());
            if (full) length++;
          }
          int how = p.choose(3);
          if (length == 0 && how != 2) return; // nothing is put before or behind an empty sequence
          Seq got = Seq.join(parts);
          for (int k = 0; k <= 40; k++) {
            String call = "how " + how + " of " + count + " parts with " + length + " chars";
            if (got.length() != length) p.fail(call + " has the length " + got.length());
            if (got.elementCount() != count) p.fail(call + " has elementCount() " + got.elementCount());
            p.trace();
            p.state(call, parts.size());
            count *= 2;
            length *= 2;
            Seq next = null;
            try {
              next = how == 0 ? got.append(got) : how == 1 ? got.prepend(got) : Seq.concat(got, got);
            } catch (RuntimeException ex) {
              if (count <= Integer.MAX_VALUE && length <= Integer.MAX_VALUE) p.fail(call + " with itself threw " + ex);
            }
            if (next == null) return;
            if (count > Integer.MAX_VALUE || length > Integer.MAX_VALUE) p.fail(call + " was accepted, elementCount() " + next.elementCount() + ", length " + next.length());
            got = next;
          }
        });
    phase(
        "lengths near the limit",
        "append, prepend, concat both ways and join of all triples of sequences with 10 lengths up to 2^31-1: the right length, chars and sub-sequences, or refused when no int can hold the length",
        p -> {
          int[] lens = {1, 2, 3, 1 << 20, 1 << 30, (1 << 30) + 1, Integer.MAX_VALUE / 2, Integer.MAX_VALUE - 2, Integer.MAX_VALUE - 1, Integer.MAX_VALUE};
          int a = p.pick(lens);
          int b = p.pick(lens);
          int c = p.pick(lens);
          int how = p.choose(6);
          AtomicSeq x = Seq.repeated('x', a);
          AtomicSeq y = Seq.repeated('y', b);
          AtomicSeq z = Seq.repeated('z', c);
          String call = "how " + how + " of " + a + ", " + b + " and " + c + " chars";
          long want = how == 4 ? (long) a + b : (long) a + b + c;
          Seq got = null;
          try {
            switch (how) {
              case 0:
                got = x.append(y).append(z);
                break;
              case 1:
                got = z.prepend(y).prepend(x);
                break;
              case 2:
                got = Seq.concat(x, Seq.concat(y, z));
                break;
              case 3:
                got = Seq.concat(Seq.concat(x, y), z);
                break;
              case 4:
                got = Seq.join(Arrays.asList(x, y));
                break;
              default:
                got = Seq.join(Arrays.asList(x, y, z));
            }
          } catch (RuntimeException | OutOfMemoryError ex) {
            if (want <= Integer.MAX_VALUE) p.fail(call + " threw " + ex);
          }
          p.trace();
          p.state(call, got == null ? "refused" : "" + got.length());
          if (got == null) return;
          if (want > Integer.MAX_VALUE) p.fail(call + " was accepted with the length " + got.length());
          if (got.length() != want) p.fail(call + " has the length " + got.length());
          int n = got.length();
          for (int i : new int[] {0, a - 1, a, a + b - 1, a + b, n - 1}) {
            if (i >= n) continue;
            char w = i < a ? 'x' : i - a < b ? 'y' : 'z';
            if (got.charAt(i) != w) p.fail(call + " has '" + got.charAt(i) + "' at " + i);
            if (got.subSequence(i, n).length() != n - i || got.subSequence(0, i).length() != i) p.fail(call + " split at " + i + " has the wrong length");
          }
          if (got.indexOf('y') != a || got.indexOf('q') >= 0) p.fail(call + " finds 'y' at " + got.indexOf('y'));
          if (got.upperCase().length() != n || got.upperCase().charAt(n - 1) != (how == 4 ? 'Y' : 'Z')) p.fail(call + " in upper case differs");
        });
    assumptions.add("A lazy sequence's action appends exactly the announced number of chars; arrays are not modified after being wrapped (documented).");
  }

  private static E some(int k, int before) {
    E x = leaf(k % LEAVES);
    if (before == 1) x.seq.hashCode();
    if (before == 2) x.seq.toString();
    switch (k / LEAVES) {
      case 0:
        return x;
      case 1:
        return upper(x);
      case 2:
        return sub(x, Math.min(1, x.text.length()), x.text.length());
      case 3:
        return upper(sub(x, Math.min(1, x.text.length()), x.text.length()));
      case 4:
        return e(Seq.forArray(x.text.toCharArray()), x.text, "array of " + x.how);
      default:
        // the same text as an array
        return e(Seq.forArray(Ref.upper(x.text).toCharArray()), Ref.upper(x.text), "array of upper " + x.how);
    }
  }

  private static E tree(int op, E x, E y) {
    return op < 3 ? binary(op, x, y) : upper(binary(0, x, y));
  }
}
