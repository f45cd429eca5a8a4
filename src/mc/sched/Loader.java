package mc.sched;

import java.io.File;
import java.io.IOException;
import java.nio.file.Files;

/** Loads the instrumented product, and a copy of the harness that uses it. */
public final class Loader extends ClassLoader {
  private final Instrumenter product;
  private final File harness;

  public Loader(Instrumenter product, File harness) {
    super(Loader.class.getClassLoader());
    this.product = product;
    this.harness = harness;
  }

  @Override
  protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
    boolean mine = name.startsWith("io.fastprintf.");
    boolean copy = name.startsWith("mc.") && !name.startsWith("mc.sched.") && !name.startsWith("mc.Explorer");
    if (!mine && !copy) return super.loadClass(name, resolve);
    synchronized (getClassLoadingLock(name)) {
      Class<?> c = findLoadedClass(name);
      if (c == null) {
        byte[] b = mine ? product.classBytes(name) : bytes(name);
        if (b == null) throw new ClassNotFoundException(name);
        c = defineClass(name, b, 0, b.length);
      }
      if (resolve) resolveClass(c);
      return c;
    }
  }

  private static final java.util.concurrent.ConcurrentHashMap<String, byte[]> CACHE =
      new java.util.concurrent.ConcurrentHashMap<>();

  private byte[] bytes(String name) {
    return CACHE.computeIfAbsent(
        name,
        n -> {
          try {
            File f = new File(harness, n.replace('.', '/') + ".class");
            return f.isFile() ? Files.readAllBytes(f.toPath()) : null;
          } catch (IOException e) {
            return null;
          }
        });
  }
}
