package mc.sched;

import java.io.File;
import java.io.IOException;
import java.nio.file.Files;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/** Loads the product with its steps counted, and a copy of the harness that uses it. */
public final class StepLoader extends ClassLoader {
  private final File product;
  private final File harness;
  private int points;

  public StepLoader(File product, File harness) {
    super(StepLoader.class.getClassLoader());
    this.product = product;
    this.harness = harness;
  }

  /** The places where steps are counted. */
  public int points() {
    return points;
  }

  @Override
  protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
    boolean mine = name.startsWith("io.fastprintf.");
    boolean copy = name.startsWith("mc.") && !name.startsWith("mc.sched.") && !name.startsWith("mc.Explorer");
    if (!mine && !copy) return super.loadClass(name, resolve);
    synchronized (getClassLoadingLock(name)) {
      Class<?> c = findLoadedClass(name);
      if (c == null) {
        try {
          byte[] b = Files.readAllBytes(new File(mine ? product : harness, name.replace('.', '/') + ".class").toPath());
          if (mine) b = counted(b);
          c = defineClass(name, b, 0, b.length);
        } catch (IOException e) {
          throw new ClassNotFoundException(name);
        }
      }
      if (resolve) resolveClass(c);
      return c;
    }
  }

  private byte[] counted(byte[] b) {
    ClassReader r = new ClassReader(b);
    ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    r.accept(
        new ClassVisitor(Opcodes.ASM9, w) {
          @Override
          public MethodVisitor visitMethod(int access, String name, String desc, String sig, String[] ex) {
            return new MethodVisitor(Opcodes.ASM9, super.visitMethod(access, name, desc, sig, ex)) {
              private void step() {
                points++;
                super.visitMethodInsn(Opcodes.INVOKESTATIC, "mc/sched/Cost", "step", "()V", false);
              }

              @Override
              public void visitCode() {
                super.visitCode();
                step();
              }

              @Override
              public void visitMethodInsn(int opcode, String owner, String name, String desc, boolean itf) {
                java.lang.reflect.Method m = opcode == Opcodes.INVOKESPECIAL ? null : Scan.instead(owner, name, desc);
                if (m != null) {
                  points++;
                  super.visitMethodInsn(Opcodes.INVOKESTATIC, Type.getInternalName(m.getDeclaringClass()), m.getName(), Type.getMethodDescriptor(m), false);
                } else {
                  super.visitMethodInsn(opcode, owner, name, desc, itf);
                }
              }

              @Override
              public void visitJumpInsn(int opcode, Label label) {
                step();
                super.visitJumpInsn(opcode, label);
              }
            };
          }
        },
        ClassReader.EXPAND_FRAMES);
    return w.toByteArray();
  }
}
