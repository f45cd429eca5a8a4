package mc.sched;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.HashMap;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import org.objectweb.asm.Type;

/**
 * Library methods that walk over their operands without allocating: calls of them from the product
 * are replaced by the methods here, which count an eighth of a step per element.
 */
public final class Scan {
  private Scan() {}

  private static void cost(int from, int to) {
    if (to > from) Cost.steps(((long) to - from >> 3) + 1);
  }

  /** Methods of an object, with the object as first parameter. */
  public static final class Virtual {
    private Virtual() {}

    public static int indexOf(String s, int c) {
      int i = s.indexOf(c);
      cost(0, i < 0 ? s.length() : i);
      return i;
    }

    public static int indexOf(String s, int c, int from) {
      int i = s.indexOf(c, from);
      cost(Math.max(0, from), i < 0 ? s.length() : i);
      return i;
    }

    public static int indexOf(String s, String t) {
      int i = s.indexOf(t);
      cost(0, i < 0 ? s.length() : i);
      return i;
    }

    public static int indexOf(String s, String t, int from) {
      int i = s.indexOf(t, from);
      cost(Math.max(0, from), i < 0 ? s.length() : i);
      return i;
    }

    public static int lastIndexOf(String s, int c) {
      int i = s.lastIndexOf(c);
      cost(Math.max(0, i), s.length());
      return i;
    }

    public static int lastIndexOf(String s, int c, int from) {
      int i = s.lastIndexOf(c, from);
      cost(Math.max(0, i), Math.min(from, s.length()));
      return i;
    }

    public static int lastIndexOf(String s, String t) {
      int i = s.lastIndexOf(t);
      cost(Math.max(0, i), s.length());
      return i;
    }

    public static boolean contains(String s, CharSequence t) {
      int i = s.indexOf(t.toString());
      cost(0, i < 0 ? s.length() : i);
      return i >= 0;
    }

    public static boolean equals(String s, Object o) {
      boolean e = s.equals(o);
      if (e || o instanceof String && ((String) o).length() == s.length()) cost(0, s.length());
      return e;
    }

    public static boolean startsWith(String s, String t) {
      cost(0, t.length());
      return s.startsWith(t);
    }

    public static boolean endsWith(String s, String t) {
      cost(0, t.length());
      return s.endsWith(t);
    }

    public static int codePointCount(String s, int a, int b) {
      int n = s.codePointCount(a, b);
      cost(a, b);
      return n;
    }

    public static void getChars(String s, int a, int b, char[] to, int at) {
      s.getChars(a, b, to, at);
      cost(a, b);
    }

    public static StringBuilder insert(StringBuilder b, int i, String s) {
      cost(i, b.length());
      return b.insert(i, s);
    }

    public static StringBuilder insert(StringBuilder b, int i, char c) {
      cost(i, b.length());
      return b.insert(i, c);
    }

    public static StringBuilder insert(StringBuilder b, int i, CharSequence s) {
      cost(i, b.length());
      return b.insert(i, s);
    }

    public static StringBuilder insert(StringBuilder b, int i, char[] s) {
      cost(i, b.length());
      return b.insert(i, s);
    }

    public static StringBuilder insert(StringBuilder b, int i, Object s) {
      cost(i, b.length());
      return b.insert(i, s);
    }

    public static StringBuilder deleteCharAt(StringBuilder b, int i) {
      cost(i, b.length());
      return b.deleteCharAt(i);
    }

    public static StringBuilder delete(StringBuilder b, int i, int j) {
      cost(j, b.length());
      return b.delete(i, j);
    }

    public static StringBuilder replace(StringBuilder b, int i, int j, String s) {
      cost(i, b.length());
      return b.replace(i, j, s);
    }

    public static StringBuilder reverse(StringBuilder b) {
      cost(0, b.length());
      return b.reverse();
    }

    public static int indexOf(StringBuilder b, String s) {
      int i = b.indexOf(s);
      cost(0, i < 0 ? b.length() : i);
      return i;
    }

    public static int lastIndexOf(StringBuilder b, String s) {
      int i = b.lastIndexOf(s);
      cost(Math.max(0, i), b.length());
      return i;
    }

    public static Object remove(List<?> l, int i) {
      cost(l instanceof LinkedList ? 0 : i, l.size());
      return l.remove(i);
    }

    @SuppressWarnings("unchecked")
    public static void add(List<?> l, int i, Object o) {
      cost(l instanceof LinkedList ? 0 : i, l.size());
      ((List<Object>) l).add(i, o);
    }

    public static int indexOf(List<?> l, Object o) {
      int i = l.indexOf(o);
      cost(0, i < 0 ? l.size() : i);
      return i;
    }

    public static boolean contains(List<?> l, Object o) {
      return indexOf(l, o) >= 0;
    }

    public static boolean remove(List<?> l, Object o) {
      cost(0, l.size());
      return l.remove(o);
    }

    public static Object remove(ArrayList<?> l, int i) {
      cost(i, l.size());
      return l.remove(i);
    }

    public static Object get(LinkedList<?> l, int i) {
      cost(0, Math.min(i, l.size() - i) * 8);
      return l.get(i);
    }

    public static boolean contains(Collection<?> l, Object o) {
      if (l instanceof List) return indexOf((List<?>) l, o) >= 0;
      return l.contains(o);
    }
  }

  /** Static methods, by their class. */
  public static final class Static {
    private Static() {}

    public static void System_arraycopy(Object from, int i, Object to, int j, int n) {
      cost(0, n);
      System.arraycopy(from, i, to, j, n);
    }

    public static void Arrays_fill(char[] a, char c) {
      cost(0, a.length);
      Arrays.fill(a, c);
    }

    public static void Arrays_fill(char[] a, int i, int j, char c) {
      cost(i, j);
      Arrays.fill(a, i, j, c);
    }

    public static boolean Arrays_equals(char[] a, char[] b) {
      if (a != null && b != null && a.length == b.length) cost(0, a.length);
      return Arrays.equals(a, b);
    }

    public static int Arrays_hashCode(char[] a) {
      if (a != null) cost(0, a.length);
      return Arrays.hashCode(a);
    }
  }

  private static final Map<String, java.lang.reflect.Method> CALLS = new HashMap<>();

  static {
    for (java.lang.reflect.Method m : Virtual.class.getMethods()) {
      if (m.getDeclaringClass() != Virtual.class) continue;
      Type[] a = Type.getArgumentTypes(m);
      String desc = Type.getMethodDescriptor(Type.getReturnType(m), Arrays.copyOfRange(a, 1, a.length));
      CALLS.put(a[0].getInternalName() + "." + m.getName() + desc, m);
    }
    for (java.lang.reflect.Method m : Static.class.getMethods()) {
      if (m.getDeclaringClass() != Static.class) continue;
      String[] n = m.getName().split("_");
      CALLS.put((n[0].equals("System") ? "java/lang/" : "java/util/") + n[0] + "." + n[1] + Type.getMethodDescriptor(m), m);
    }
  }

  /** What is to be called instead, or null. */
  static java.lang.reflect.Method instead(String owner, String name, String desc) {
    return CALLS.get(owner + "." + name + desc);
  }
}
