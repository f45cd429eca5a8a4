package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.StringWriter;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;

/** A call of one thread that is stopped in a callback while another thread makes a whole call. */
final class Middle {
  private Middle() {}

  static final String[] RELATIONS = {
    "a thread started in the callback", "a child made before the call", "the parent", "a brother", "a child made before the formatter was used", "a virtual thread made before the call", "two generations down"
  };
  static final String[] FORMATS = {"%s|%d|%s", "<%.1S>%03d%s", "a long literal text in front %-12s%5d%%%8.3s", "%S%x%S"};
  static final int INNER = 7;
  static final int SINKS = 5;

  /** What waits to be told to run something. */
  private static final class Turn {
    private final CountDownLatch go = new CountDownLatch(1);
    private final CountDownLatch done = new CountDownLatch(1);
    private volatile Runnable task;
    private volatile Throwable bad;

    void serve() {
      try {
        if (!go.await(100, TimeUnit.SECONDS)) throw new IllegalStateException("never asked");
        if (task != null) task.run();
      } catch (Throwable t) {
        bad = t;
      } finally {
        done.countDown();
      }
    }

    /** Has the other thread run it, false if that does not come to an end. */
    boolean hand(Runnable r) throws InterruptedException {
      task = r;
      go.countDown();
      return done.await(40, TimeUnit.SECONDS);
    }
  }

  private static final class Stop {
    volatile Runnable then;

    @Override
    public String toString() {
      Runnable r = then;
      then = null;
      if (r != null) r.run();
      return "cb";
    }
  }

  private static Thread start(Runnable r) {
    Thread t = new Thread(null, r, "middle", 256 << 10);
    t.setDaemon(true);
    return t;
  }

  static void run(Explorer.Path p) {
    int rel = p.choose(RELATIONS.length);
    int variant = p.choose(C10.VARIANTS);
    String fmt = p.pick(FORMATS);
    int inner = p.choose(INNER);
    int sink = p.choose(SINKS);
    FastPrintf f = C10.variant(FastPrintf.compile(fmt), variant);
    String what = Show.text(fmt) + ", variant " + variant + ", sink " + sink + ", stopped while " + RELATIONS[rel] + " makes call " + inner;
    Turn turn = new Turn();
    String[] got = new String[2];
    Throwable[] bad = new Throwable[1];
    boolean[] stuck = new boolean[1];
    Stop stop = new Stop();
    Args args = Args.of(stop, 1, "zz");
    StringBuffer shared = new StringBuffer();
    StringWriter writer = new StringWriter();
    Runnable other = () -> got[1] = inner(f, fmt, inner, args, sink == 4 ? writer : shared);
    Runnable outer =
        () -> {
          try {
            stop.then =
                () -> {
                  try {
                    if (rel == 0) {
                      Thread t = start(turn::serve);
                      t.start();
                    }
                    if (!turn.hand(other)) stuck[0] = true;
                  } catch (InterruptedException e) {
                    throw new IllegalStateException(e);
                  }
                };
            switch (sink) {
              case 0:
                got[0] = f.format(args);
                break;
              case 1:
                got[0] = f.format(new StringBuilder(), args).toString();
                break;
              case 2:
                got[0] = f.format(stop, 1, "zz");
                break;
              case 3:
                got[0] = f.format(shared, args).toString();
                break;
              default:
                got[0] = f.format(writer, args).toString();
            }
          } catch (Throwable t) {
            bad[0] = t;
          }
        };
    try {
      Thread early = rel == 4 ? start(turn::serve) : null;
      f.format("warm", 3, "up");
      switch (rel) {
        case 0:
          outer.run();
          break;
        case 1:
          {
            Thread t = start(turn::serve);
            t.start();
            outer.run();
            break;
          }
        case 2:
          {
            Thread t = start(outer);
            t.start();
            turn.serve();
            t.join(100000);
            break;
          }
        case 3:
          {
            Thread a = start(outer);
            Thread b = start(turn::serve);
            b.start();
            a.start();
            a.join(100000);
            break;
          }
        case 4:
          early.start();
          outer.run();
          break;
        case 5:
          {
            Thread t = C31.virtual(turn::serve);
            if (t == null) t = start(turn::serve);
            t.start();
            outer.run();
            break;
          }
        default:
          {
            Thread[] grand = new Thread[1];
            Thread t = start(() -> grand[0] = start(turn::serve));
            t.start();
            t.join(100000);
            grand[0].start();
            outer.run();
          }
      }
    } catch (InterruptedException e) {
      throw new IllegalStateException(e);
    } finally {
      turn.go.countDown();
    }
    p.trace();
    if (stuck[0]) p.fail(what + ": the other call waits for the stopped one");
    if (turn.bad != null) p.fail(what + ": the other call raised " + turn.bad);
    if (bad[0] != null) p.fail(what + ": the call raised " + bad[0]);
    String want = Ref.format(fmt, "cb", 1, "zz").text;
    String wantOther = inner == 1 ? want : Ref.format(fmt, "other", 2, "yyy").text;
    if (!wantOther.equals(got[1])) p.fail(what + ": the other call gave " + Show.text(got[1]) + ", model says " + Show.text(wantOther));
    String own = got[0];
    if (inner == 6 && sink >= 3) {
      // both write into one sink: the whole text of the other call lies between two pieces
      int at = own.indexOf(wantOther);
      if (at >= 0) own = own.substring(0, at) + own.substring(at + wantOther.length());
    }
    if (!want.equals(own)) p.fail(what + ": gave " + Show.text(got[0]) + ", model says " + Show.text(want));
    Ref.Out again = Impl.run(f, "cb", 1, "zz");
    if (!want.equals(again.text)) p.fail(what + ": afterwards " + again);
    p.state(what, got[0]);
    p.sample(() -> what);
  }

  private static String inner(FastPrintf f, String fmt, int kind, Args args, Appendable sink) {
    Object[] v = {"other", 2, "yyy"};
    switch (kind) {
      case 0:
        return f.format(v);
      case 1: // the list of the stopped call
        return f.format(args);
      case 2:
        return f.enableThreadLocalCache().format(v);
      case 3:
        return FastPrintf.compile(fmt).enableThreadLocalCache().format(v);
      case 4:
        return f.format(new StringBuilder(), Args.of(v)).toString();
      case 5:
        return f.setStringBuilderInitialCapacity(2).format(v);
      default: // the sink of the stopped call, if that has one
        {
          int from = sink.toString().length();
          f.format(sink, Args.of(v));
          return sink.toString().substring(from);
        }
    }
  }
}
