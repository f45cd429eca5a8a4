package mc;

import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.File;
import java.io.IOException;
import java.io.InputStreamReader;
import java.io.OutputStreamWriter;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.List;

/** Compares the reference model with the C library where the two are meant to agree. */
final class Glibc {
  private final List<String> requests = new ArrayList<>();
  private final List<String> model = new ArrayList<>();

  /** The model's text for {@code fmt} and the same request in C. */
  void add(char kind, String cFormat, String value, String fmt, Object... args) {
    Ref.Out o = Ref.format(fmt, args);
    if (o.kind != Ref.Kind.OK) throw new IllegalStateException(Show.call(fmt, args) + " is " + o);
    requests.add(kind + "\t" + cFormat + "\t" + value);
    model.add(o.text);
  }

  /** Runs all requests; any difference is an error of the model, not of the product. */
  void run(Explorer x) throws Exception {
    File exe = new File(System.getProperty("mc.work"), "cprintf");
    if (!exe.isFile()) {
      String src = System.getProperty("mc.here") + "/glibc/printf.c";
      Process g;
      try {
        g = new ProcessBuilder("gcc", "-O1", "-w", "-o", exe.getPath(), src).inheritIO().start();
      } catch (IOException e) {
        x.phases.add("{\"phase\":\"model against the C library\",\"skipped\":\"no C compiler\"}");
        return;
      }
      if (g.waitFor() != 0) {
        x.phases.add("{\"phase\":\"model against the C library\",\"skipped\":\"the C program does not compile\"}");
        return;
      }
    }
    final Process p = new ProcessBuilder(exe.getPath()).redirectErrorStream(true).start();
    Thread feeder =
        new Thread(
            () -> {
              try (BufferedWriter w = new BufferedWriter(new OutputStreamWriter(p.getOutputStream(), StandardCharsets.ISO_8859_1))) {
                for (String r : requests) {
                  w.write(r);
                  w.write('\n');
                }
              } catch (IOException e) {
                // the reader notices
              }
            });
    feeder.start();
    BufferedReader r = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.ISO_8859_1));
    for (int i = 0; i < requests.size(); i++) {
      String line = r.readLine();
      if (!model.get(i).equals(line)) {
        p.destroyForcibly();
        throw new IllegalStateException("the model says \"" + model.get(i) + "\", C prints \"" + line + "\" for " + requests.get(i));
      }
    }
    p.destroyForcibly();
    x.phases.add("{\"phase\":\"model against the C library\",\"compared\":" + requests.size() + "}");
  }
}
