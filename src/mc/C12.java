package mc;

import java.io.File;
import java.util.ArrayList;
import java.util.BitSet;
import java.util.List;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.function.Supplier;
import mc.sched.Exec;
import mc.sched.Instrumenter;
import mc.sched.Loader;
import mc.sched.Scenario;

/** Every interleaving of formatting threads, up to a number of preemptions. */
final class C12 extends Check {

  private Instrumenter product;
  private final AtomicLong uncontrolled = new AtomicLong();

  private Loader loader() {
    return new Loader(product, new File(System.getProperty("mc.harness")));
  }

  @SuppressWarnings("unchecked")
  private static List<Supplier<Scenario>> scenes(Loader l, String group) {
    try {
      return (List<Supplier<Scenario>>) Class.forName("mc.Scenes", true, l).getMethod(group).invoke(null);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  /** One program with what is known about it. */
  private final class Plan {
    final String group;
    final int index;
    String name;
    int threads;
    String[] expected;
    BitSet shared = new BitSet();
    BitSet written = new BitSet();
    int maxShared;
    int maxWritten;
    volatile int rounds;

    Plan(String group, int index) {
      this.group = group;
      this.index = index;
    }

    /** Finds the sites that touch objects used by several threads: to a fixed point. */
    void discover(List<Supplier<Scenario>> scenes, boolean fresh) {
      Scenario s = scenes.get(index).get();
      name = s.toString();
      threads = s.threads();
      expected = new String[threads];
      for (int i = 0; i < threads; i++) expected[i] = s.expected(i);
      boolean grew = true;
      while (grew && rounds < 6) {
        rounds++;
        BitSet before = (BitSet) shared.clone();
        BitSet beforeW = (BitSet) written.clone();
        int limit = 1;
        for (int first = 0; first < threads; first++) {
          for (int k = -2; k < (fresh ? 0 : limit); k++) {
            final int first0 = first;
            final int at = k;
            Exec.Strategy st =
                new Exec.Strategy() {
                  @Override
                  public int free(int n) {
                    return first0 % n;
                  }

                  @Override
                  public int preempt(int y, int n) {
                    return at == -2 ? 1 + y % n : y == at ? 1 : 0;
                  }

                  @Override
                  public void state(long h) {}
                };
            try {
              List<Supplier<Scenario>> sc = fresh ? scenes(loader(), group) : scenes;
              Exec e = new Exec(sc.get(index).get(), st, before, product);
              e.run();
              limit = Math.max(limit, Math.min(e.yields, 400));
              maxShared = Math.max(maxShared, e.yields);
              shared.or(e.sharedSites(false));
              written.or(e.sharedSites(true));
            } catch (Exec.StuckException e) {
              return; // found again by the exploration
            }
          }
        }
        grew = !before.equals(shared) || !beforeW.equals(written);
      }
    }
  }

  private static final class Strategy implements Exec.Strategy {
    private final Explorer.Path p;
    private final int firstAt;
    private final int firstThread;
    private int budget;
    private boolean started;
    private final long salt;

    Strategy(Explorer.Path p, int firstThread, int firstAt, int budget, long salt) {
      this.p = p;
      this.firstThread = firstThread;
      this.firstAt = firstAt;
      this.budget = budget;
      this.salt = salt;
    }

    @Override
    public int free(int n) {
      if (!started) {
        started = true;
        return firstThread;
      }
      return p.choose(n);
    }

    @Override
    public int preempt(int k, int n) {
      if (k < firstAt || budget == 0) return 0;
      if (k == firstAt) {
        budget--;
        return 1 + (n == 1 ? 0 : p.choose(n));
      }
      int c = p.choose(n + 1);
      if (c > 0) budget--;
      return c;
    }

    @Override
    public void state(long h) {
      p.state(h * 31 + salt);
    }
  }

  /** Root choices: (program, first thread, position of the first preemption). */
  private final class Roots {
    final List<Plan> plans = new ArrayList<>();
    final List<int[]> roots = new ArrayList<>();

    void add(Plan plan, int positions) {
      plans.add(plan);
      for (int f = 0; f < plan.threads; f++) {
        for (int k = 0; k <= positions; k++) roots.add(new int[] {plans.size() - 1, f, k});
      }
    }
  }

  private final ThreadLocal<Loader> warm = ThreadLocal.withInitial(this::loader);

  private final ThreadLocal<java.util.Map<String, List<Supplier<Scenario>>>> warmScenes =
      ThreadLocal.withInitial(java.util.HashMap::new);

  private void explore(Explorer.Path p, Roots r, int budget, boolean writtenOnly, boolean fresh) {
    p.tolerant();
    int[] root = r.roots.get(p.choose(r.roots.size()));
    Plan plan = r.plans.get(root[0]);
    BitSet active = writtenOnly ? plan.written : plan.shared;
    List<Supplier<Scenario>> scenes =
        fresh ? scenes(loader(), plan.group) : warmScenes.get().computeIfAbsent(plan.group, g -> warmUp(g));
    Scenario s = scenes.get(plan.index).get();
    Exec e = new Exec(s, new Strategy(p, root[1], root[2], budget, plan.name.hashCode()), active, product);
    String[] got;
    try {
      got = e.run();
    } catch (Exec.StuckException x) {
      p.fail(plan.name + ": a call does not return: " + x.getMessage());
      return;
    }
    if (e.uncontrolled) uncontrolled.incrementAndGet();
    p.trace();
    if (e.misuse != null) p.fail(plan.name + ": under schedule " + e.trace + " " + e.misuse);
    if (got == null) p.fail(plan.name + ": deadlock under schedule " + e.trace);
    for (int i = 0; i < got.length; i++) {
      if (!plan.expected[i].equals(got[i])) {
        p.fail(plan.name + ": under schedule " + e.trace + " thread " + i + " got " + Show.text(got[i]) + ", alone it gets " + Show.text(plan.expected[i]));
      }
    }
    // the shared objects are left intact
    for (int i = 0; i < got.length; i++) {
      String again;
      try {
        again = s.run(i);
      } catch (RuntimeException x) {
        again = "threw " + x;
      }
      if (!plan.expected[i].equals(again)) {
        p.fail(plan.name + ": after schedule " + e.trace + " the calls of thread " + i + " give " + Show.text(again) + ", alone " + Show.text(plan.expected[i]));
      }
    }
    p.state(plan.name, String.join("\n", got) + e.trace.length());
    p.sample(() -> plan.name + " under " + e.trace);
  }

  /** Runs every program of a group once, so that classes and call sites are initialised. */
  private List<Supplier<Scenario>> warmUp(String group) {
    List<Supplier<Scenario>> l = scenes(warm.get(), group);
    for (Supplier<Scenario> x : l) {
      Scenario s = x.get();
      s.setup();
      for (int i = 0; i < s.threads(); i++) {
        try {
          s.run(i);
        } catch (RuntimeException e) {
          // judged by the exploration
        }
      }
    }
    return l;
  }

  private List<Plan> plans(final String group, final boolean fresh) {
    final int n = scenes(loader(), group).size();
    final Plan[] out = new Plan[n];
    final AtomicInteger next = new AtomicInteger();
    List<Thread> ts = new ArrayList<>();
    final List<Throwable> errors = new ArrayList<>();
    for (int k = 0; k < Runtime.getRuntime().availableProcessors(); k++) {
      Thread t =
          new Thread(
              () -> {
                try {
                  List<Supplier<Scenario>> sc = warmUp(group);
                  int i;
                  while ((i = next.getAndIncrement()) < n) {
                    out[i] = new Plan(group, i);
                    out[i].discover(sc, fresh);
                  }
                } catch (Throwable e) {
                  synchronized (errors) {
                    errors.add(e);
                  }
                }
              });
      t.start();
      ts.add(t);
    }
    for (Thread t : ts) {
      try {
        t.join();
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }
    if (!errors.isEmpty()) throw new IllegalStateException(errors.get(0));
    List<Plan> l = new ArrayList<>();
    for (Plan p : out) l.add(p);
    return l;
  }

  private Roots roots(List<Plan> plans, boolean split) {
    Roots r = new Roots();
    for (Plan p : plans) r.add(p, p.maxShared);
    return r;
  }

  @Override
  void define() {
    try {
      product = new Instrumenter(new File(System.getProperty("mc.product")));
    } catch (java.io.IOException e) {
      throw new IllegalStateException(e);
    }
    int pb = thorough ? 3 : 2;
    List<Plan> all = plans("all", false);
    int max = 0;
    for (Plan p : all) max = Math.max(max, p.maxShared);
    final Roots two = roots(all, true);
    final Roots three = roots(plans("wide", false), true);
    final Roots types = roots(plans("types", false), true);
    final Roots items = roots(plans("corpus", false), true);
    final Roots cold = roots(plans("cold", true), true);
    if (Boolean.getBoolean("mc.c12.show")) {
      for (Plan p : all) System.out.println(p.name + " yields=" + p.maxShared + " shared sites=" + p.shared.cardinality() + " written=" + p.written.cardinality() + " rounds=" + p.rounds);
    }
    phase(
        "calls in the middle of calls",
        "a call stopped in a callback while another thread makes a whole call: " + Middle.RELATIONS.length + " kinds of other thread x " + C10.VARIANTS + " variants x " + Middle.FORMATS.length + " formats x " + Middle.INNER + " other calls x " + Middle.SINKS + " sinks",
        Middle::run);
    phase(
        "two threads",
        all.size() + " programs of two threads, every schedule with at most " + pb + " preemptions, switching at every access to an object both threads use (at most "
            + max + " such points per execution)",
        p -> explore(p, two, pb, false, false));
    phase(
        "three threads",
        three.plans.size() + " programs of three threads, every schedule with at most " + (pb) + " preemptions",
        p -> explore(p, three, pb, false, false));
    phase(
        "types",
        types.plans.size() + " programs of two threads with different values of one type, in all conversions that take it, every schedule with at most " + (thorough ? 2 : 1) + " preemption(s)",
        p -> explore(p, types, thorough ? 2 : 1, false, false));
    phase(
        "types, conflicts",
        "the same, every schedule with at most 2 preemptions at accesses to objects that are shared and may be written",
        p -> explore(p, types, 2, true, false));
    phase(
        "corpus",
        items.plans.size() + " programs: two threads compile and format every corpus format, with itself and with another, every schedule with at most " + (thorough ? 2 : 1) + " preemption(s)",
        p -> explore(p, items, thorough ? 2 : 1, false, false));
    final Roots coldItems = new Roots();
    for (Plan p : items.plans) coldItems.add(p, 0);
    phase(
        "corpus, cold start",
        coldItems.plans.size() + " programs of the corpus with freshly loaded classes, both orders",
        p -> explore(p, coldItems, 0, false, true));
    phase(
        "conflicts",
        "the same two-thread programs, every schedule with at most " + (thorough ? 5 : 3) + " preemptions at accesses to objects that are shared and may be written",
        p -> explore(p, two, thorough ? 5 : 3, true, false));
    phase(
        "cold start",
        cold.plans.size() + " programs of two threads with freshly loaded classes, every schedule with at most " + (thorough ? 2 : 1) + " preemption(s)",
        p -> explore(p, cold, thorough ? 2 : 1, false, true));
  }

  @Override
  void after(Explorer x) {
    x.phases.add("{\"phase\":\"instrumentation\",\"classes\":" + product.classes() + ",\"sites\":" + product.sites() + ",\"uncontrolled_executions\":" + uncontrolled + ",\"abandoned_prefixes\":" + x.abandoned + "}");
  }
}
