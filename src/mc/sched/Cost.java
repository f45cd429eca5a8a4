package mc.sched;

/** Counts the steps the product takes: method entries and branches. */
public final class Cost {
  private Cost() {}

  /** Too many steps. */
  @SuppressWarnings("serial")
  public static final class Exceeded extends Error {
    Exceeded() {
      super("too many steps", null, false, false);
    }
  }

  /** Work whose size is a parameter. */
  public interface Family {
    String name();

    /** The sizes to try, growing. */
    int[] sizes();

    /** Whether the work inside the Java library is known to be linear, too. */
    boolean whole();

    /** What the Java library has to do for the input in any case. */
    Object library(Object o) throws Exception;

    Object prepare(int n) throws Exception;

    Object run(Object prepared) throws Exception;
  }

  private static long steps;
  private static long limit;

  public static void step() {
    if (++steps > limit) throw new Exceeded();
  }

  /** Work done by a called back object of the caller. */
  public static void steps(long n) {
    if ((steps += n) > limit) throw new Exceeded();
  }

  public static void start(long max) {
    steps = 0;
    limit = max;
  }

  public static long stop() {
    long n = steps;
    limit = Long.MAX_VALUE;
    return n;
  }
}
