package mc;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicLongArray;
import java.util.function.Supplier;

/**
 * Stateless model checker. A {@link Body} is a deterministic program whose only nondeterminism is
 * {@link Path#choose}; the explorer runs it once for every path of its choice tree, depth first.
 * Root choices (the first level of the tree) are distributed over worker threads.
 */
public final class Explorer {

  /** The program under exploration. */
  public interface Body {
    void run(Path p) throws Throwable;
  }

  /** A violated property. */
  @SuppressWarnings("serial")
  public static final class Violation extends RuntimeException {
    public Violation(String message) {
      super(message);
    }
  }

  @SuppressWarnings("serial")
  static final class Divergence extends RuntimeException {
    Divergence() {
      super("diverged", null, false, false);
    }
  }

  /** One execution: the choices made so far. */
  public final class Path {
    private int[] choice = new int[16];
    private int[] arity = new int[16];
    private int cursor;
    private int len;
    private int fixed;
    private long edges;
    private long traces;
    private int[] script;
    private boolean tolerant;
    private volatile long since;

    /** The body may behave differently on replay; such executions are counted and left out. */
    public void tolerant() {
      tolerant = true;
    }

    public int choose(int n) {
      if (n <= 0) throw new IllegalStateException("choose(" + n + ")");
      if (script != null) {
        return cursor < script.length ? script[cursor++] : 0;
      }
      if (cursor < len) {
        if (arity[cursor] != n) {
          if (tolerant) {
            len = Math.max(cursor, fixed);
            throw new Divergence();
          }
          throw new IllegalStateException(
              "nondeterministic body: arity " + arity[cursor] + " became " + n + " at " + cursor);
        }
      } else {
        if (len == choice.length) {
          choice = Arrays.copyOf(choice, len * 2);
          arity = Arrays.copyOf(arity, len * 2);
        }
        choice[len] = 0;
        arity[len] = n;
        len++;
        edges++;
      }
      return choice[cursor++];
    }

    public <T> T pick(T[] options) {
      return options[choose(options.length)];
    }

    public int pick(int[] options) {
      return options[choose(options.length)];
    }

    public <T> T pick(List<T> options) {
      return options.get(choose(options.size()));
    }

    public boolean flip() {
      return choose(2) == 1;
    }

    /** Records an observable state that was reached. */
    public void state(Object situation, Object outcome) {
      long h = mix(situation.hashCode() * 0x9E3779B97F4A7C15L + outcome.hashCode());
      markState(h);
    }

    public void state(long hash) {
      markState(mix(hash));
    }

    /** Records that one model trace was executed on the product and compared. */
    public void trace() {
      traces++;
    }

    public void sample(Supplier<String> s) {
      offerSample(s);
    }

    public void fail(String message) {
      throw new Violation(message);
    }

    public int[] choices() {
      return Arrays.copyOf(choice, Math.min(cursor, len));
    }

    private boolean next() {
      while (len > fixed && choice[len - 1] + 1 >= arity[len - 1]) len--;
      if (len == fixed) return false;
      choice[len - 1]++;
      edges++;
      cursor = 0;
      return true;
    }
  }

  private static final int STATE_BITS = 28;
  private final AtomicLongArray seen = new AtomicLongArray(1 << (STATE_BITS - 6));

  final AtomicLong states = new AtomicLong();
  final AtomicLong transitions = new AtomicLong();
  final AtomicLong executions = new AtomicLong();
  final AtomicLong traces = new AtomicLong();
  final AtomicLong abandoned = new AtomicLong();
  final List<String> samples = new ArrayList<>();
  final List<String> phases = new ArrayList<>();
  private final AtomicLong sampleTick = new AtomicLong();
  private int samplesThisPhase;

  volatile Throwable error;
  volatile String violation;
  volatile int[] violationPath;
  volatile String violationPhase;
  private final long deadline;

  public Explorer(long deadlineMillis) {
    this.deadline = deadlineMillis;
  }

  private static long mix(long h) {
    h ^= h >>> 33;
    h *= 0xff51afd7ed558ccdL;
    h ^= h >>> 33;
    h *= 0xc4ceb9fe1a85ec53L;
    h ^= h >>> 33;
    return h;
  }

  private void markState(long h) {
    int bit = (int) (h >>> (64 - STATE_BITS));
    int idx = bit >>> 6;
    long mask = 1L << (bit & 63);
    while (true) {
      long old = seen.get(idx);
      if ((old & mask) != 0) return;
      if (seen.compareAndSet(idx, old, old | mask)) {
        states.incrementAndGet();
        return;
      }
    }
  }

  private void offerSample(Supplier<String> s) {
    long t = sampleTick.incrementAndGet();
    if ((t & (t - 1)) != 0) return; // powers of two only
    synchronized (samples) {
      if (samplesThisPhase < 4 && (t == 1 || t >= 64)) {
        samplesThisPhase++;
        samples.add(s.get());
      }
    }
  }

  public boolean failed() {
    return error != null || violation != null;
  }

  /** Explores the whole tree of {@code body}; its first choice is split over {@code threads}. */
  public void explore(final String phase, int threads, final Body body) {
    if (failed()) return;
    sampleTick.set(0);
    samplesThisPhase = 0;
    long e0 = executions.get();
    long t0 = transitions.get();
    long tr0 = traces.get();
    long s0 = states.get();
    long start = System.currentTimeMillis();
    // Probe for the arity of the first choice.
    final int roots;
    {
      final Path p = new Path();
      Thread probe =
          new Thread(
              null,
              () -> {
                try {
                  body.run(p);
                } catch (Throwable t) {
                  // found again below
                }
              },
              "mc-probe",
              1L << 20);
      probe.setDaemon(true);
      probe.start();
      try {
        probe.join(STUCK_NANOS / 1_000_000L);
      } catch (InterruptedException e) {
        error = e;
        return;
      }
      if (probe.isAlive()) {
        violation = "a call does not return (phase " + phase + ")";
        violationPath = p.choices();
        violationPhase = phase;
        return;
      }
      roots = p.len == 0 ? 0 : p.arity[0];
    }
    final AtomicInteger nextRoot = new AtomicInteger();
    List<Thread> pool = new ArrayList<>();
    for (int i = 0; i < threads; i++) {
      Thread t =
          new Thread(
              null,
              () -> {
                int root;
                while (!failed() && (root = nextRoot.getAndIncrement()) < Math.max(1, roots)) {
                  Path p = new Path();
                  if (roots > 0) {
                    p.choice[0] = root;
                    p.arity[0] = roots;
                    p.len = 1;
                    p.fixed = 1;
                    p.edges = 1;
                  }
                  exploreRoot(phase, body, p);
                }
              },
              "mc-" + i,
              1L << 20);
      t.setDaemon(true);
      pool.add(t);
      t.start();
    }
    for (Thread t : pool) {
      try {
        while (t.isAlive() && violation == null) {
          t.join(500);
          stuck(phase);
        }
        if (!stuck) t.join();
      } catch (InterruptedException e) {
        error = e;
      }
    }
    running.clear();
    phases.add(
        "{\"phase\":" + Json.str(phase)
            + ",\"executions\":" + (executions.get() - e0)
            + ",\"transitions\":" + (transitions.get() - t0)
            + ",\"traces\":" + (traces.get() - tr0)
            + ",\"new_states\":" + (states.get() - s0)
            + ",\"ms\":" + (System.currentTimeMillis() - start)
            + "}");
  }

  /** The paths being executed, to notice a call that never returns. */
  private final java.util.Set<Path> running = java.util.concurrent.ConcurrentHashMap.newKeySet();

  private static final long STUCK_NANOS = Long.getLong("mc.stuck.s", 150L) * 1_000_000_000L;
  private volatile boolean stuck;

  private void stuck(String phase) {
    long now = System.nanoTime();
    for (Path p : running) {
      if (now - p.since > STUCK_NANOS) {
        synchronized (this) {
          if (violation == null) {
            violation = "a call does not return (phase " + phase + ")";
            violationPath = p.choices();
            violationPhase = phase;
            stuck = true;
          }
        }
      }
    }
  }

  private void exploreRoot(String phase, Body body, Path p) {
    long count = 0;
    p.since = System.nanoTime();
    running.add(p);
    try {
      do {
        if (failed()) return;
        if ((++count & 255) == 0 && System.currentTimeMillis() > deadline) {
          throw new IllegalStateException("time limit reached in phase " + phase);
        }
        p.cursor = 0;
        if ((count & 15) == 1) p.since = System.nanoTime();
        try {
          body.run(p);
        } catch (Divergence d) {
          abandoned.incrementAndGet();
          continue;
        }
        if (p.cursor < p.len) {
          if (!p.tolerant) throw new IllegalStateException("nondeterministic body: shorter replay");
          abandoned.incrementAndGet();
          p.len = Math.max(p.cursor, p.fixed);
        }
      } while (p.next());
    } catch (Violation v) {
      synchronized (this) {
        if (violation == null) {
          violation = v.getMessage();
          violationPath = p.choices();
          violationPhase = phase;
        }
      }
    } catch (Throwable t) {
      synchronized (this) {
        if (!fromProduct(t)) {
          if (error == null) error = t;
        } else if (violation == null) {
          violation = "unexpected " + t + (t.getStackTrace().length > 0 ? " at " + t.getStackTrace()[0] : "");
          violationPath = p.choices();
          violationPhase = phase;
        }
      }
    } finally {
      running.remove(p);
      executions.addAndGet(count);
      transitions.addAndGet(p.edges);
      traces.addAndGet(p.traces);
    }
  }

  /**
   * An exception no call was expected to throw, raised inside the product, or raised by reading
   * what the product returned (null for a text, too few elements and the like).
   */
  static boolean fromProduct(Throwable t) {
    if (t instanceof NullPointerException
        || t instanceof IndexOutOfBoundsException
        || t instanceof ClassCastException
        || t instanceof java.util.NoSuchElementException
        || t instanceof NumberFormatException) {
      return true;
    }
    for (Throwable c = t; c != null; c = c.getCause()) {
      for (StackTraceElement e : c.getStackTrace()) {
        if (e.getClassName().startsWith("io.fastprintf.")) return true;
      }
    }
    return false;
  }

  /** Re-executes one recorded path. */
  public void replay(Body body, int[] choices) throws Throwable {
    Path p = new Path();
    p.script = choices;
    body.run(p);
  }
}
