package mc.sched;

/** Called by the instrumented product. */
public final class Hook {
  private Hook() {}

  /** An object is about to be read or written at a site. */
  public static void touch(Object o, int site) {
    Thread t = Thread.currentThread();
    if (t instanceof CThread && o != null) ((CThread) t).touch(o, site);
  }

  /** An object is about to be passed to the JDK. */
  public static void touchJdk(Object o, int site) {
    Thread t = Thread.currentThread();
    if (t instanceof CThread && o != null && MUTABLE.get(o.getClass())) ((CThread) t).touch(o, site);
  }

  /** A method of an object of the JDK is about to be called. */
  public static void call(Object o, int site) {
    Thread t = Thread.currentThread();
    if (t instanceof CThread && o != null && MUTABLE.get(o.getClass())) ((CThread) t).call(o, site);
  }

  public static void enter(Object lock, int site) {
    Thread t = Thread.currentThread();
    if (t instanceof CThread && lock != null) ((CThread) t).enter(lock, site);
  }

  public static void exit(Object lock) {
    Thread t = Thread.currentThread();
    if (t instanceof CThread && lock != null) ((CThread) t).exit(lock);
  }

  /** Class initialisers run without interruption. */
  public static void quiet(int delta) {
    Thread t = Thread.currentThread();
    if (t instanceof CThread) ((CThread) t).quiet += delta;
  }

  private static final ClassValue<Boolean> MUTABLE =
      new ClassValue<Boolean>() {
        @Override
        protected Boolean computeValue(Class<?> c) {
          if (c.isArray()) return true;
          String n = c.getName();
          if (!n.startsWith("java.") && !n.startsWith("sun.") && !n.startsWith("jdk.")) return false;
          if (n.contains("$$Lambda")) return false;
          if (Enum.class.isAssignableFrom(c) || n.startsWith("java.time.")) return false;
          if (Number.class.isAssignableFrom(c) && !n.startsWith("java.util.")) return false;
          if (c == String.class || c == Boolean.class || c == Character.class || c == Class.class) return false;
          if (n.equals("java.util.Locale") || n.startsWith("java.lang.invoke.")) return false;
          return !Throwable.class.isAssignableFrom(c);
        }
      };

  public static void astore(Object[] a, int i, Object v, int site) {
    touch(a, site);
    a[i] = v;
  }

  public static void bastore(Object a, int i, int v, int site) {
    touch(a, site);
    if (a instanceof boolean[]) ((boolean[]) a)[i] = (v & 1) != 0;
    else ((byte[]) a)[i] = (byte) v;
  }

  public static void castore(char[] a, int i, int v, int site) {
    touch(a, site);
    a[i] = (char) v;
  }

  public static void sastore(short[] a, int i, int v, int site) {
    touch(a, site);
    a[i] = (short) v;
  }

  public static void iastore(int[] a, int i, int v, int site) {
    touch(a, site);
    a[i] = v;
  }

  public static void lastore(long[] a, int i, long v, int site) {
    touch(a, site);
    a[i] = v;
  }

  public static void fastore(float[] a, int i, float v, int site) {
    touch(a, site);
    a[i] = v;
  }

  public static void dastore(double[] a, int i, double v, int site) {
    touch(a, site);
    a[i] = v;
  }
}
