package mc.sched;

import java.lang.reflect.Field;
import java.util.Collection;
import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.Map;

/** What the library documents about the use of its objects by several threads. */
final class Contract {
  private Contract() {}

  /** Nothing to watch. */
  static final int NONE = 0;
  /** Orders what its users do before and after. */
  static final int SYNC = 1;
  /** As before; all locks count as one, since views of a lock share its state. */
  static final int LOCK = 2;
  /** Not to be changed while another thread uses it. */
  static final int UNSAFE = 3;
  /** Changed by every call. */
  static final int EXCLUSIVE = 4;

  private static final Field ACCESS_ORDER = accessOrder();

  private static Field accessOrder() {
    try {
      Field f = LinkedHashMap.class.getDeclaredField("accessOrder");
      f.setAccessible(true);
      return f;
    } catch (ReflectiveOperationException | RuntimeException e) {
      return null;
    }
  }

  private static final ClassValue<Integer> KIND =
      new ClassValue<Integer>() {
        @Override
        protected Integer computeValue(Class<?> c) {
          return compute(c);
        }
      };

  private static int compute(Class<?> c) {
    String n = c.getName();
    if (!n.startsWith("java.")) return NONE;
    if (n.startsWith("java.util.concurrent.locks.")) return LOCK;
    if (n.startsWith("java.util.concurrent.") || n.startsWith("java.util.Collections$Synchronized")) return SYNC;
    if (n.equals("java.util.Hashtable") || n.equals("java.util.Vector") || n.equals("java.util.Stack") || n.equals("java.lang.StringBuffer") || n.equals("java.util.Properties")) {
      return SYNC;
    }
    if (n.startsWith("java.util.Collections$") || n.startsWith("java.util.ImmutableCollections")) return NONE;
    if (java.text.Format.class.isAssignableFrom(c)
        || Iterator.class.isAssignableFrom(c)
        || n.equals("java.util.regex.Matcher")
        || n.equals("java.util.Formatter")
        || n.equals("java.util.Scanner")
        || n.equals("java.util.StringTokenizer")
        || java.security.MessageDigest.class.isAssignableFrom(c)
        || java.nio.charset.CharsetEncoder.class.isAssignableFrom(c)) {
      return EXCLUSIVE;
    }
    if (Collection.class.isAssignableFrom(c)
        || Map.class.isAssignableFrom(c)
        || n.equals("java.lang.StringBuilder")
        || n.equals("java.util.BitSet")
        || n.equals("java.util.StringJoiner")
        || n.equals("java.util.Date")
        || java.util.Calendar.class.isAssignableFrom(c)
        || java.nio.Buffer.class.isAssignableFrom(c)) {
      return UNSAFE;
    }
    return NONE;
  }

  static int kind(Object o) {
    return KIND.get(o.getClass());
  }

  private static final String[] CHANGING = {
    "put", "add", "remove", "clear", "set", "compute", "merge", "replace", "poll", "push", "pop", "offer", "append", "insert", "delete", "ensureCapacity",
    "trimToSize", "sort", "retain", "roll", "flip", "and", "or", "xor", "reverse", "repeat", "rewind", "mark", "reset", "limit", "position", "compact", "next", "previous"
  };

  /** Whether a method of that name changes its receiver. */
  static boolean changing(String method) {
    for (String s : CHANGING) {
      if (method.startsWith(s) && (method.length() == s.length() || !Character.isLowerCase(method.charAt(s.length())))) return true;
    }
    return false;
  }

  /** Whether looking something up changes the object, too. */
  static boolean changedByReading(Object o, String method) {
    if (!method.equals("get") && !method.equals("getOrDefault")) return false;
    if (o instanceof java.util.WeakHashMap) return true;
    if (o instanceof LinkedHashMap && ACCESS_ORDER != null) {
      try {
        return ACCESS_ORDER.getBoolean(o);
      } catch (IllegalAccessException e) {
        return false;
      }
    }
    return false;
  }
}
