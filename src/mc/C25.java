package mc;

import com.sun.management.ThreadMXBean;
import java.io.File;
import java.lang.management.ManagementFactory;
import java.util.List;
import mc.sched.Cost;
import mc.sched.StepLoader;

/** The work of a call is proportional to the sizes of what it is given and what it prints. */
final class C25 extends Check {
  /** How much more than proportional is let pass: growing buffers, dividing and conquering. */
  private static final double SLACK = 4;

  /** What one unit of size may cost in any case. */
  private static final double STEPS = 32;

  private static final double BYTES = 64;

  private static final ThreadMXBean THREADS = (ThreadMXBean) ManagementFactory.getThreadMXBean();
  private static final long SECONDS = 3;

  private static Object sink;

  private static long bytes() {
    return THREADS.getThreadAllocatedBytes(Thread.currentThread().getId());
  }

  private static String kb(long n) {
    return n / 1024 + " KiB";
  }

  @SuppressWarnings("unchecked")
  private List<Cost.Family> families() throws Exception {
    StepLoader l = new StepLoader(new File(System.getProperty("mc.product")), new File(System.getProperty("mc.harness")));
    return (List<Cost.Family>) Class.forName("mc.CostFamilies", true, l).getMethod("all").invoke(null);
  }

  @Override
  void define() {
    assumptions.add("Steps are method entries and branches of the product; inside the Java library scans of texts, lists and arrays, allocation and time are seen, and for the digits of large BigIntegers and BigDecimals neither is judged.");
    List<Cost.Family> families;
    try {
      families = families();
    } catch (Exception e) {
      throw new IllegalStateException(e);
    }
    sequentialPhase(
        "proportional",
        families.size() + " families of formats, arguments, lists, histories and sequences, each at three or four sizes 16 times (8 for big numbers) apart, up to 4,194,304 elements or the largest width: steps and allocated bytes grow at most " + (int) SLACK + " times faster than the size (or stay below 32 steps and 64 bytes per unit), and no step in size multiplies the time by more than " + (int) (1.5 * SLACK) + " times its factor and passes " + SECONDS + " s",
        p -> {
          Cost.Family f = p.pick(families);
          int[] sizes = f.sizes();
          long steps = 0;
          long mem = 0;
          long time = 0;
          StringBuilder log = new StringBuilder();
          for (int i = 0; i < sizes.length; i++) {
            double ratio = i == 0 ? 1 : (double) sizes[i] / sizes[i - 1];
            double maxSteps = i == 0 ? Long.MAX_VALUE : Math.max(STEPS * sizes[i], SLACK * ratio * steps);
            double maxMem = i == 0 ? Double.MAX_VALUE : Math.max(BYTES * sizes[i], SLACK * ratio * mem);
            double maxTime = Math.max(SECONDS * 1e9, 1.5 * SLACK * ratio * time);
            long s = 0;
            long m = 0;
            long t = 0;
            long libraryMem = 0;
            long libraryTime = 0;
            // what is counted is the first run, something may be remembered for the next
            for (int run = 0; run == 0 || run == 1 && t > maxTime + SLACK * libraryTime; run++) {
              Cost.start(Long.MAX_VALUE);
              Object in = f.prepare(sizes[i]);
              long b = bytes();
              long begin = System.nanoTime();
              sink = f.library(in);
              if (sink != null && run == 0) {
                libraryMem = bytes() - b;
                libraryTime = System.nanoTime() - begin;
                sink = null;
              }
              Cost.start((long) maxSteps);
              b = bytes();
              begin = System.nanoTime();
              try {
                sink = f.run(in);
              } catch (Cost.Exceeded e) {
                Cost.stop();
                p.fail(f.name() + ": size " + sizes[i - 1] + " took " + steps + " steps, size " + sizes[i] + " more than " + (long) maxSteps);
              }
              t = System.nanoTime() - begin;
              if (run == 0) {
                m = bytes() - b;
                s = Cost.stop();
              }
            }
            if (f.whole() && m > maxMem + SLACK * libraryMem) {
              p.fail(f.name() + ": size " + sizes[i - 1] + " allocated " + kb(mem) + ", size " + sizes[i] + " " + kb(m));
            }
            if (f.whole() && t > maxTime + SLACK * libraryTime) {
              p.fail(f.name() + ": size " + sizes[Math.max(0, i - 1)] + " took " + time / 1000000 + " ms, size " + sizes[i] + " " + t / 1000000 + " ms");
            }
            steps = s;
            mem = m;
            time = t;
            log.append(' ').append(sizes[i]).append(':').append(s).append('/').append(kb(m)).append('/').append(t / 1000000).append("ms");
            p.trace();
            p.state(f.name(), s);
          }
          sink = null;
          if (Boolean.getBoolean("mc.cost")) System.out.println(f.name() + log);
          p.sample(() -> f.name() + " (size:steps/allocation/time)" + log);
        });
  }
}
