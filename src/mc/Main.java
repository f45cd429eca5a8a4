package mc;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.Arrays;
import java.util.List;
import java.util.Map;

/** Runs one check: {@code Main <id> <tier> <evidence dir>} or {@code Main <id> replay <file>}. */
public final class Main {

  private static Check create(String id) throws Exception {
    Check c = (Check) Class.forName("mc." + id).getDeclaredConstructor().newInstance();
    return c;
  }

  public static void main(String[] argv) throws Throwable {
    String id = argv[0];
    Check check = create(id);
    if (argv[1].equals("replay")) {
      replay(check, Paths.get(argv[2]));
      return;
    }
    String tier = argv[1];
    check.thorough = tier.equals("thorough");
    long start = System.currentTimeMillis();
    long limit = Long.getLong("mc.limit.s", check.thorough ? 10800L : 780L) * 1000;
    Explorer x = new Explorer(start + limit);
    try {
      check.define();
    } catch (Throwable t) {
      unexpected(x, t, "define");
    }
    int cpus = Integer.getInteger("mc.threads", Runtime.getRuntime().availableProcessors());
    for (Map.Entry<String, Explorer.Body> e : check.phases.entrySet()) {
      Integer t = check.phaseThreads.get(e.getKey());
      x.explore(e.getKey(), t == null ? cpus : t, e.getValue());
    }
    if (!x.failed() && !Boolean.getBoolean("mc.child")) {
      try {
        check.after(x);
        if (check.olderToo) Child.older(x, id, tier);
      } catch (Explorer.Violation v) {
        x.violation = v.getMessage();
        x.violationPhase = "after";
        x.violationPath = new int[0];
      } catch (Throwable t) {
        unexpected(x, t, "after");
      }
    }
    double wall = (System.currentTimeMillis() - start) / 1000.0;
    if (x.violation == null && x.error != null) {
      x.error.printStackTrace(System.out);
      System.out.println("ERROR of the check " + id);
      System.exit(2);
    }
    Path dir = Paths.get(argv[2]);
    Files.createDirectories(dir);
    write(dir.resolve(id + ".json"), evidence(id, tier, check, x, wall));
    if (x.violation != null) {
      Path rdir = dir.resolve("replay");
      Files.createDirectories(rdir);
      Path file = rdir.resolve(id + "-" + tier + ".txt");
      write(
          file,
          "check " + id + "\ntier " + tier + "\nphase " + x.violationPhase + "\nchoices "
              + Arrays.toString(x.violationPath).replaceAll("[\\[\\],]", "")
              + "\nwhat " + x.violation.replace("\n", "\n  ")
              + "\n# replay: bash /verif/run.sh " + id + " replay " + file + "\n");
      System.out.println(x.violation);
      System.out.println("VIOLATION property=" + id + " replay=" + file);
      System.exit(1);
    }
    System.out.println(
        "OK property=" + id + " executions=" + x.executions + " states=" + x.states
            + " transitions=" + x.transitions + " traces=" + x.traces + " wall_s=" + wall);
    System.exit(0);
  }

  private static void unexpected(Explorer x, Throwable t, String phase) {
    if (Explorer.fromProduct(t)) {
      x.violation = "unexpected " + t;
      x.violationPhase = phase;
      x.violationPath = new int[0];
    } else {
      x.error = t;
    }
  }

  private static void write(Path p, String s) throws IOException {
    Files.write(p, s.getBytes(StandardCharsets.UTF_8));
  }

  private static String list(List<String> l) {
    StringBuilder b = new StringBuilder("[");
    for (String s : l) {
      if (b.length() > 1) b.append(",\n   ");
      b.append(Json.str(s));
    }
    return b.append("]").toString();
  }

  private static String evidence(String id, String tier, Check c, Explorer x, double wall) {
    long seed = 1;
    try {
      seed = Long.parseLong(System.getenv("VERIF_SEED"));
    } catch (RuntimeException e) {
      // no seed given; nothing here is random
    }
    boolean fault = id.equals("C11");
    StringBuilder b = new StringBuilder("{\n");
    b.append(" \"property\": ").append(Json.str(id)).append(",\n");
    b.append(" \"tier\": ").append(Json.str(tier)).append(",\n");
    b.append(" \"seed\": ").append(seed).append(",\n");
    b.append(" \"level\": ").append(fault ? "\"fault_enumeration\"" : "\"model_checking\"").append(",\n");
    b.append(" \"coverage\": {\n");
    if (fault) {
      b.append("  \"evaluations\": ").append(x.executions).append(",\n");
      b.append("  \"distinct_nontrivial\": ").append(x.states).append(",\n");
      b.append("  \"rule\": ").append(Json.str(
          "every format of the corpus with every append call (and every argument) as the failing"
              + " one, for every kind of failure; distinct = different (format, accepted prefix,"
              + " failure) situations")).append(",\n");
    } else {
      b.append("  \"states\": ").append(x.states).append(",\n");
      b.append("  \"executions\": ").append(x.executions).append(",\n");
    }
    b.append("  \"transitions\": ").append(x.transitions).append(",\n");
    b.append("  \"traces_validated_against_impl\": ").append(x.traces).append(",\n");
    b.append("  \"exhaustive\": ").append(!x.failed()).append(",\n");
    b.append("  \"phases\": [\n   ").append(String.join(",\n   ", x.phases)).append("],\n");
    b.append("  \"bounds\": ").append(list(c.bounds)).append(",\n");
    b.append("  \"samples\": ").append(list(x.samples)).append("\n },\n");
    b.append(" \"assumptions\": ").append(list(c.assumptions)).append(",\n");
    b.append(" \"violations\": ").append(x.violation == null ? 0 : 1).append(",\n");
    b.append(" \"wall_s\": ").append(wall).append("\n}\n");
    return b.toString();
  }

  private static void replay(Check check, Path file) throws Throwable {
    String phase = null;
    int[] choices = new int[0];
    for (String line : Files.readAllLines(file, StandardCharsets.UTF_8)) {
      if (line.startsWith("tier ")) check.thorough = line.endsWith("thorough");
      if (line.startsWith("phase ")) phase = line.substring(6);
      if (line.startsWith("choices ")) {
        choices =
            Arrays.stream(line.substring(8).trim().split("\\s+"))
                .filter(s -> !s.isEmpty())
                .mapToInt(Integer::parseInt)
                .toArray();
      }
    }
    check.define();
    Explorer x = new Explorer(Long.MAX_VALUE);
    try {
      Explorer.Body body = check.phases.get(phase);
      if (body == null) {
        check.after(x);
      } else {
        x.replay(body, choices);
      }
    } catch (Explorer.Violation v) {
      System.out.println("REPRODUCED " + v.getMessage());
      System.exit(1);
    }
    System.out.println("not reproduced: the recorded path behaves as the model says");
    System.exit(0);
  }
}
