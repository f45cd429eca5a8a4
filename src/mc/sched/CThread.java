package mc.sched;

import java.lang.reflect.Field;
import java.util.concurrent.locks.LockSupport;

/**
 * A thread that runs only when the scheduler says so. Threads are used for many executions; their
 * thread locals are dropped in between.
 */
final class CThread extends Thread {
  private static final Field LOCALS = locals();

  private volatile Exec next;
  Exec exec;
  int index;
  volatile boolean handoff;
  volatile boolean done;
  volatile boolean outside; // blocked in something the scheduler does not control
  Object waitingFor;
  int quiet;
  int steps;
  int[] clock;
  String result;

  CThread() {
    super(null, null, "controlled", 1L << 19);
    setDaemon(true);
  }

  private static Field locals() {
    try {
      Field f = Thread.class.getDeclaredField("threadLocals");
      f.setAccessible(true);
      return f;
    } catch (ReflectiveOperationException | RuntimeException e) {
      return null;
    }
  }

  /** Whether a thread can be used again. */
  static boolean reusable() {
    return LOCALS != null;
  }

  void assign(Exec e, int i) {
    index = i;
    handoff = false;
    done = false;
    outside = false;
    waitingFor = null;
    quiet = 0;
    steps = 0;
    result = null;
    next = e;
    if (getState() == State.NEW) start();
    else LockSupport.unpark(this);
  }

  @Override
  public void run() {
    while (true) {
      while (next == null) LockSupport.park(this);
      exec = next;
      next = null;
      Exec e = exec;
      awaitTurn();
      String r;
      try {
        r = e.scenario.run(index);
      } catch (Throwable t) {
        r = "threw " + t;
      }
      if (LOCALS == null) {
        result = r;
        e.finished(this);
        return;
      }
      try {
        LOCALS.set(this, null);
      } catch (IllegalAccessException x) {
        r = "threw " + x;
      }
      result = r;
      e.finished(this);
    }
  }

  void awaitTurn() {
    if (exec.turn == index) return;
    handoff = true;
    while (exec.turn != index) LockSupport.park(this);
    handoff = false;
  }

  void touch(Object o, int site) {
    touch(o, site, false);
  }

  void call(Object o, int site) {
    touch(o, site, true);
  }

  private void touch(Object o, int site, boolean receiver) {
    if (quiet > 0) return;
    quiet++;
    try {
      exec.touch(this, o, site);
      exec.used(this, o, site, receiver);
    } finally {
      quiet--;
    }
  }

  void enter(Object lock, int site) {
    if (quiet > 0) return;
    quiet++;
    try {
      exec.touch(this, lock, site);
      exec.enter(this, lock);
    } finally {
      quiet--;
    }
  }

  void exit(Object lock) {
    if (quiet > 0) return;
    exec.exit(this, lock);
  }
}
