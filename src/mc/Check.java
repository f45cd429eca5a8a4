package mc;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** A property check: named phases, each an exploration. */
abstract class Check {
  final Map<String, Explorer.Body> phases = new LinkedHashMap<>();
  final Map<String, Integer> phaseThreads = new LinkedHashMap<>();
  final List<String> bounds = new ArrayList<>();
  final List<String> assumptions = new ArrayList<>();
  boolean thorough;

  /** Registers the phases. */
  abstract void define();

  /** Runs after the phases; for checks that need more than the explorer. */
  void after(Explorer x) throws Throwable {}

  /** Whether the phases are also run on the oldest runtime, where padding is written in another way. */
  boolean olderToo;

  void phase(String name, String bound, Explorer.Body body) {
    phases.put(name, body);
    bounds.add(name + ": " + bound);
  }

  void sequentialPhase(String name, String bound, Explorer.Body body) {
    phase(name, bound, body);
    phaseThreads.put(name, 1);
  }

  static final String[] FLAG_SETS = flagSets();

  private static String[] flagSets() {
    String[] out = new String[32];
    for (int i = 0; i < 32; i++) {
      StringBuilder b = new StringBuilder();
      for (int k = 0; k < 5; k++) if ((i >> k & 1) != 0) b.append("-+ #0".charAt(k));
      out[i] = b.toString();
    }
    return out;
  }

  static String directive(String flags, int width, int prec, char conv) {
    StringBuilder b = new StringBuilder("%").append(flags);
    if (width > 0) b.append(width);
    if (prec >= 0) b.append('.').append(prec);
    return b.append(conv).toString();
  }
}
