package mc;

import java.util.Arrays;

/** Readable rendering of cases. */
final class Show {
  private Show() {}

  static String text(String s) {
    if (s == null) return "(null)";
    StringBuilder b = new StringBuilder();
    int n = Math.min(s.length(), 200);
    for (int i = 0; i < n; i++) {
      char c = s.charAt(i);
      if (c >= 0x20 && c < 0x7f) b.append(c);
      else b.append(String.format("\\u%04x", (int) c));
    }
    if (n < s.length()) b.append("...(").append(s.length()).append(" chars)");
    return b.toString();
  }

  static String arg(Object a) {
    if (a == null) return "null";
    if (a instanceof Ref.Prim) return "prim:" + arg(((Ref.Prim) a).boxed);
    if (a instanceof Object[]) return Arrays.toString((Object[]) a);
    if (a instanceof Ref.Modelled) return a.getClass().getSimpleName();
    String s;
    try {
      s = Ref.text(a);
    } catch (RuntimeException e) {
      s = "?";
    }
    return a.getClass().getSimpleName() + ":" + text(s);
  }

  static String call(String fmt, Object... args) {
    StringBuilder b = new StringBuilder("format(\"" + text(fmt) + "\"");
    for (Object a : args) b.append(", ").append(arg(a));
    return b.append(")").toString();
  }
}
