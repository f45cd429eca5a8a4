package mc.sched;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.BitSet;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.locks.LockSupport;

/** One execution of a scenario under a schedule. */
public final class Exec {

  /** Decides the schedule. */
  public interface Strategy {
    /** Which of {@code n} threads runs first or next, where the running one cannot go on. */
    int free(int n);

    /** At yield number {@code k}: 0 to go on, or 1..n to switch to another thread. */
    int preempt(int k, int n);

    /** A state of the interleaving: the progress of all threads. */
    void state(long hash);
  }

  private static final class Rec {
    int[] used; // per thread: its time of the last use
    int threads;
    boolean written;
    final BitSet sites = new BitSet();
  }

  private static final class Lock {
    int[] clock;
    CThread owner;
    int count;
  }

  private static final ThreadLocal<ArrayDeque<CThread>> POOL = ThreadLocal.withInitial(ArrayDeque::new);

  final Scenario scenario;
  private final Strategy strategy;
  private final BitSet active;
  private final Instrumenter product;
  private final CThread[] threads;
  private final Map<Object, Rec> objects = new IdentityHashMap<>();
  private final Map<Object, Lock> locks = new IdentityHashMap<>();
  private final Thread worker = Thread.currentThread();
  volatile int turn = -1;
  private volatile boolean finished;
  private volatile boolean deadlock;
  private volatile Throwable failure;
  /** Something the scheduler does not control happened; the rest is not steered. */
  public volatile boolean uncontrolled;
  private volatile long progress;
  public int yields;
  public String trace = "";
  private final StringBuilder log = new StringBuilder();

  /**
   * @param active sites where a switch may happen
   * @param product knows the sites
   */
  public Exec(Scenario scenario, Strategy strategy, BitSet active, Instrumenter product) {
    this.scenario = scenario;
    this.strategy = strategy;
    this.active = active;
    this.product = product;
    this.threads = new CThread[scenario.threads()];
  }

  /** Runs to the end and returns the results, or null for a deadlock. */
  public String[] run() {
    scenario.setup();
    int first = threads.length == 1 ? 0 : strategy.free(threads.length);
    log.append(first);
    ArrayDeque<CThread> pool = POOL.get();
    for (int i = 0; i < threads.length; i++) {
      threads[i] = pool.isEmpty() ? new CThread() : pool.pop();
    }
    for (int i = 0; i < threads.length; i++) {
      threads[i].clock = new int[threads.length];
      threads[i].clock[i] = 1;
    }
    for (int i = 0; i < threads.length; i++) threads[i].assign(this, i);
    turn = first;
    LockSupport.unpark(threads[first]);
    long last = -1;
    int still = 0;
    long since = System.nanoTime();
    while (!finished && !deadlock) {
      LockSupport.parkNanos(this, 20_000_000L);
      if (finished || deadlock) break;
      if (progress != last) {
        last = progress;
        still = 0;
        since = System.nanoTime();
        continue;
      }
      still++;
      if (still >= 3) unstick();
      if (System.nanoTime() - since > 40_000_000_000L) {
        throw new StuckException("no progress for 40 s, schedule " + log);
      }
    }
    trace = log.toString();
    if (!deadlock && CThread.reusable()) for (CThread t : threads) pool.push(t);
    if (failure instanceof RuntimeException) throw (RuntimeException) failure;
    if (failure instanceof Error) throw (Error) failure;
    if (deadlock) return null;
    String[] r = new String[threads.length];
    for (int i = 0; i < r.length; i++) r[i] = threads[i].result;
    return r;
  }

  /** A call that never came back. */
  @SuppressWarnings("serial")
  public static final class StuckException extends RuntimeException {
    StuckException(String m) {
      super(m);
    }
  }

  /** The running thread waits for something held by another: let another one run. */
  private synchronized void unstick() {
    CThread t = threads[turn];
    if (t.done || t.handoff) {
      LockSupport.unpark(t);
      return;
    }
    Thread.State s = t.getState();
    if (s != Thread.State.BLOCKED && s != Thread.State.WAITING && s != Thread.State.TIMED_WAITING) return;
    uncontrolled = true;
    t.outside = true;
    for (CThread o : threads) {
      if (o != t && !o.done && !o.outside && (o.waitingFor == null || free(o.waitingFor, o))) {
        give(o);
        return;
      }
    }
  }

  private void give(CThread t) {
    progress++;
    t.outside = false;
    turn = t.index;
    LockSupport.unpark(t);
  }

  private boolean free(Object lock, CThread t) {
    Lock l = locks.get(lock);
    return l == null || l.owner == null || l.owner == t;
  }

  private List<CThread> enabledExcept(CThread me) {
    List<CThread> l = new ArrayList<>(threads.length);
    for (CThread t : threads) {
      if (t != me && !t.done && (t.waitingFor == null || free(t.waitingFor, t))) l.add(t);
    }
    return l;
  }

  private int guarded(int n) {
    try {
      return uncontrolled || failure != null || n == 1 ? 0 : strategy.free(n);
    } catch (Throwable t) {
      failure = t;
      return 0;
    }
  }

  synchronized void finished(CThread t) {
    t.done = true;
    progress++;
    List<CThread> next = enabledExcept(t);
    if (next.isEmpty()) {
      boolean all = true;
      for (CThread o : threads) all &= o.done;
      if (all) finished = true;
      else deadlock = true;
      LockSupport.unpark(worker);
      return;
    }
    CThread n = next.get(guarded(next.size()));
    log.append('.').append(n.index);
    give(n);
  }

  void touch(CThread t, Object o, int site) {
    t.outside = false;
    t.awaitTurn();
    CThread next = null;
    synchronized (this) {
      progress++;
      t.steps++;
      Rec r = objects.get(o);
      if (r == null) {
        r = new Rec();
        objects.put(o, r);
      }
      r.threads |= 1 << t.index;
      r.sites.set(site);
      if (product.writes().get(site)) r.written = true;
      if (failure != null || uncontrolled || !active.get(site)) return;
      List<CThread> others = enabledExcept(t);
      if (others.isEmpty()) return;
      long h = 0;
      for (CThread c : threads) h = h * 1000003 + c.steps * 31 + (c.done ? 1 : 0);
      int c;
      try {
        strategy.state(h * 31 + t.index);
        c = strategy.preempt(yields++, others.size());
      } catch (Throwable e) {
        failure = e;
        c = 0;
      }
      if (c > 0) {
        next = others.get(c - 1);
        log.append('@').append(yields - 1).append('>').append(next.index);
        give(next);
      }
    }
    if (next != null) t.awaitTurn();
  }

  void enter(CThread t, Object lock) {
    while (true) {
      synchronized (this) {
        Lock l = locks.get(lock);
        if (l == null) {
          l = new Lock();
          locks.put(lock, l);
        }
        if (l.owner == null || l.owner == t) {
          l.owner = t;
          l.count++;
          t.waitingFor = null;
          acquire(t, l);
          return;
        }
        t.waitingFor = lock;
        List<CThread> next = enabledExcept(t);
        if (next.isEmpty()) {
          deadlock = true;
          LockSupport.unpark(worker);
        } else {
          CThread n = next.get(guarded(next.size()));
          log.append('!').append(n.index);
          give(n);
        }
      }
      t.awaitTurn();
    }
  }

  synchronized void exit(CThread t, Object lock) {
    Lock l = locks.get(lock);
    if (l != null && l.owner == t && --l.count == 0) {
      l.owner = null;
      release(t, l);
    }
  }

  private static void acquire(CThread t, Lock l) {
    if (l.clock == null) return;
    for (int i = 0; i < l.clock.length; i++) t.clock[i] = Math.max(t.clock[i], l.clock[i]);
  }

  private static void release(CThread t, Lock l) {
    l.clock = t.clock.clone();
    t.clock[t.index]++;
  }

  private void order(CThread t, Object o) {
    Lock l = locks.get(o);
    if (l == null) {
      l = new Lock();
      locks.put(o, l);
    }
    acquire(t, l);
    release(t, l);
  }

  /**
   * An object is used now. Objects that the library documents as not safe for threads must not be
   * changed by one thread while another uses them: calls of the library are atomic here, so that
   * this could not show in the results.
   */
  synchronized void used(CThread t, Object o, int site, boolean receiver) {
    if (uncontrolled || misuse != null) return;
    if (product.volatiles().get(site)) {
      order(t, o);
      return;
    }
    int kind = Contract.kind(o);
    if (kind == Contract.NONE) return;
    if (kind == Contract.SYNC || kind == Contract.LOCK) {
      order(t, kind == Contract.LOCK ? (Object) Contract.class : o);
      return;
    }
    boolean change =
        receiver && (kind == Contract.EXCLUSIVE || Contract.changing(product.method(site)) || Contract.changedByReading(o, product.method(site)));
    Rec r = objects.get(o);
    if (r.used == null) r.used = new int[threads.length];
    if (change) {
      for (int i = 0; i < threads.length; i++) {
        if (i != t.index && r.used[i] > t.clock[i]) {
          misuse = "threads " + i + " and " + t.index + " use one " + o.getClass().getName() + " without synchronization (" + product.site(site) + ")";
        }
      }
    }
    r.used[t.index] = t.clock[t.index];
  }

  /** Description of an unsynchronized use of an object that is not made for it, or null. */
  public String misuse;

  /** Sites that touched an object used by several threads (and written by one, if asked). */
  public synchronized BitSet sharedSites(boolean writtenOnly) {
    BitSet b = new BitSet();
    for (Rec r : objects.values()) {
      if (Integer.bitCount(r.threads) > 1 && (r.written || !writtenOnly)) b.or(r.sites);
    }
    return b;
  }
}
