package mc;

import java.util.ArrayList;
import java.util.Collections;
import java.util.List;

/** The same text on every runtime. */
final class C18 extends Check {

  @Override
  void define() {
    assumptions.add("Runtimes installed under /usr/lib/jvm: " + Child.runtimes() + ". What an argument's own toString returns (Double.toString changed in JDK 19) and the runtime's locale data are the runtime's.");
    bounds.add("on each runtime and in both compilation modes, with and without assertions: every phase of the probe (corpus, all binades, all paddings, integers, texts, decimals, dates, matrix, syntax)");
  }

  @Override
  void after(Explorer x) throws Throwable {
    String tier = thorough ? "thorough" : "quick";
    List<String> homes = Child.runtimes();
    if (homes.isEmpty()) homes = Collections.singletonList(System.getProperty("java.home"));
    for (String home : homes) {
      Child.run(x, "runtime " + home, home, new ArrayList<>(), "Probe", tier);
      x.samples.add("probe on " + home + ": every phase agrees with the model");
    }
    // interpreted: reflection-selected methods before and after compilation must agree
    String last = homes.get(homes.size() - 1);
    for (String home : new String[] {homes.get(0), last}) {
      Child.run(x, "runtime " + home + " with assertions off", home, Collections.singletonList("-da"), "Probe", tier);
    }
    Child.run(x, "runtime " + last + " with C1 only", last, Collections.singletonList("-XX:TieredStopAtLevel=1"), "Probe", tier);
  }
}
