package mc;

import java.io.BufferedReader;
import java.io.File;
import java.io.InputStreamReader;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.TimeUnit;
import java.util.regex.Matcher;
import java.util.regex.Pattern;

/** Runs a check in another JVM and adds its counts to this run. */
final class Child {
  private Child() {}

  private static final Pattern OK =
      Pattern.compile("OK property=\\S+ executions=(\\d+) states=(\\d+) transitions=(\\d+) traces=(\\d+) .*");

  /** Installed runtimes, by major version. */
  static List<String> runtimes() {
    List<String> out = new ArrayList<>();
    File[] dirs = new File("/usr/lib/jvm").listFiles();
    if (dirs == null) return out;
    Arrays.sort(dirs);
    for (File d : dirs) {
      if (d.getName().matches("java-\\d+-openjdk.*") && new File(d, "bin/java").canExecute()) out.add(d.getPath());
    }
    return out;
  }

  /** The phases of a check on the oldest runtime, unless it is the one in use. */
  static void older(Explorer x, String check, String tier) throws Exception {
    List<String> homes = runtimes();
    String self = System.getProperty("java.specification.version");
    String home = null;
    int best = Integer.MAX_VALUE;
    for (String h : homes) {
      int v = Integer.parseInt(new File(h).getName().replaceAll("java-(\\d+)-.*", "$1"));
      if (v < best) {
        best = v;
        home = h;
      }
    }
    if (home == null || self.equals(String.valueOf(best)) || self.equals("1." + best)) return;
    run(x, "runtime " + home, home, new ArrayList<>(), check, tier);
  }

  static void run(Explorer x, String what, String home, List<String> options, String check, String tier) throws Exception {
    List<String> cmd = new ArrayList<>();
    cmd.add(home + "/bin/java");
    cmd.add("-ea");
    cmd.add("-Dmc.child=true");
    cmd.addAll(options);
    cmd.addAll(Arrays.asList("-Xmx4g", "-Xss1m", "-XX:+UseParallelGC", "-cp", System.getProperty("mc.product") + ":" + System.getProperty("mc.harness")));
    String dir = System.getProperty("mc.work") + "/child";
    cmd.addAll(Arrays.asList("mc.Main", check, tier, dir));
    ProcessBuilder pb = new ProcessBuilder(cmd);
    pb.redirectErrorStream(true);
    long start = System.currentTimeMillis();
    Process p = pb.start();
    p.getOutputStream().close();
    StringBuilder all = new StringBuilder();
    String first = null;
    Matcher m = null;
    BufferedReader r = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.UTF_8));
    for (String line; (line = r.readLine()) != null; ) {
      if (first == null) first = line;
      if (all.length() < 20000) all.append(line).append('\n');
      Matcher k = OK.matcher(line);
      if (k.matches()) m = k;
    }
    if (!p.waitFor(20, TimeUnit.SECONDS)) p.destroyForcibly();
    int code = p.exitValue();
    if (code == 1 && all.indexOf("VIOLATION property=") >= 0) throw new Explorer.Violation(what + ": " + first);
    if (code != 0 || m == null) throw new IllegalStateException(what + " ended with " + code + ":\n" + all);
    x.executions.addAndGet(Long.parseLong(m.group(1)));
    x.states.addAndGet(Long.parseLong(m.group(2)));
    x.transitions.addAndGet(Long.parseLong(m.group(3)));
    x.traces.addAndGet(Long.parseLong(m.group(4)));
    x.phases.add(
        "{\"phase\":" + Json.str(what) + ",\"executions\":" + m.group(1) + ",\"transitions\":" + m.group(3)
            + ",\"traces\":" + m.group(4) + ",\"new_states\":" + m.group(2)
            + ",\"ms\":" + (System.currentTimeMillis() - start) + "}");
  }
}
