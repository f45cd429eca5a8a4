package mc.sched;

import java.io.File;
import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.BitSet;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.stream.Collectors;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/** Inserts a scheduling point before every access of the product to state that can change. */
public final class Instrumenter {
  private static final String HOOK = "mc/sched/Hook";
  private static final String[] CONSTANT_OWNERS = {
    "java/lang/String", "java/lang/Math", "java/lang/Integer", "java/lang/Long", "java/lang/Short",
    "java/lang/Byte", "java/lang/Character", "java/lang/Boolean", "java/lang/Double",
    "java/lang/Float", "java/math/BigInteger", "java/math/BigDecimal", "java/lang/Class",
    "java/lang/Enum"
  };

  private final Map<String, byte[]> raw = new TreeMap<>();
  private final Map<String, byte[]> done = new HashMap<>();
  private final Map<String, String> supers = new HashMap<>();
  private final Set<String> finals = new HashSet<>();
  private final Set<String> fields = new HashSet<>();
  private final Set<String> constantOwners = new HashSet<>();
  private final BitSet writes = new BitSet();
  private final BitSet volatiles = new BitSet();
  private final Set<String> volatileFields = new HashSet<>();
  private final Map<Integer, String> methods = new HashMap<>();
  private final List<String> sites = new ArrayList<>();

  public Instrumenter(File dir) throws IOException {
    for (String s : CONSTANT_OWNERS) constantOwners.add(s);
    List<Path> files =
        Files.walk(dir.toPath()).filter(f -> f.toString().endsWith(".class")).sorted().collect(Collectors.toList());
    for (Path f : files) {
      byte[] b = Files.readAllBytes(f);
      String name = new ClassReader(b).getClassName();
      raw.put(name, b);
    }
    for (byte[] b : raw.values()) scan(b);
    for (Map.Entry<String, byte[]> e : raw.entrySet()) {
      done.put(e.getKey().replace('/', '.'), transform(e.getKey(), e.getValue()));
    }
  }

  public byte[] classBytes(String name) {
    return done.get(name);
  }

  public BitSet writes() {
    return writes;
  }

  /** Sites that access a volatile field. */
  BitSet volatiles() {
    return volatiles;
  }

  /** The name of the method called at a site. */
  String method(int site) {
    return methods.getOrDefault(site, "");
  }

  public int sites() {
    return sites.size();
  }

  public String site(int i) {
    return sites.get(i);
  }

  public int classes() {
    return done.size();
  }

  private void scan(byte[] b) {
    ClassReader r = new ClassReader(b);
    final String owner = r.getClassName();
    supers.put(owner, r.getSuperName());
    r.accept(
        new ClassVisitor(Opcodes.ASM9) {
          @Override
          public FieldVisitor visitField(int access, String name, String desc, String sig, Object v) {
            fields.add(owner + "." + name);
            if ((access & Opcodes.ACC_FINAL) != 0) finals.add(owner + "." + name);
            if ((access & Opcodes.ACC_VOLATILE) != 0) volatileFields.add(owner + "." + name);
            return null;
          }
        },
        ClassReader.SKIP_CODE | ClassReader.SKIP_DEBUG);
  }

  private boolean constantField(String owner, String name) {
    String o = owner;
    while (o != null && raw.containsKey(o)) {
      if (fields.contains(o + "." + name)) return finals.contains(o + "." + name);
      o = supers.get(o);
    }
    return !raw.containsKey(owner);
  }

  private int site(String what, boolean write) {
    sites.add(what);
    if (write) writes.set(sites.size() - 1);
    return sites.size() - 1;
  }

  private int volatileSite(int site, String owner, String name) {
    for (String o = owner; o != null && raw.containsKey(o); o = supers.get(o)) {
      if (volatileFields.contains(o + "." + name)) volatiles.set(site);
    }
    return site;
  }

  private byte[] transform(final String cls, byte[] bytes) {
    ClassReader r = new ClassReader(bytes);
    ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    r.accept(new Visitor(w, cls), ClassReader.EXPAND_FRAMES);
    return w.toByteArray();
  }

  private final class Visitor extends ClassVisitor {
    private final String cls;
    private boolean itf;
    private int wrappers;

    Visitor(ClassWriter w, String cls) {
      super(Opcodes.ASM9, w);
      this.cls = cls;
    }

    @Override
    public void visit(int v, int access, String name, String sig, String sup, String[] itfs) {
      itf = (access & Opcodes.ACC_INTERFACE) != 0;
      super.visit(v, access, name, sig, sup, itfs);
    }

    @Override
    public MethodVisitor visitMethod(int access, String name, String desc, String sig, String[] ex) {
      if ((access & Opcodes.ACC_SYNCHRONIZED) != 0) {
        boolean isStatic = (access & Opcodes.ACC_STATIC) != 0;
        String inner = name + "$mc$sync";
        synchronizedWrapper(access & ~Opcodes.ACC_SYNCHRONIZED, name, inner, desc, ex, isStatic);
        int a = (access & ~(Opcodes.ACC_SYNCHRONIZED | Opcodes.ACC_PUBLIC | Opcodes.ACC_PROTECTED)) | Opcodes.ACC_PRIVATE;
        MethodVisitor mv = super.visitMethod(a, inner, desc, sig, ex);
        return new Body(mv, this, cls + "." + name, name);
      }
      MethodVisitor mv = super.visitMethod(access, name, desc, sig, ex);
      return mv == null ? null : new Body(mv, this, cls + "." + name, name);
    }

    private void lock(MethodVisitor m, boolean isStatic) {
      if (isStatic) m.visitLdcInsn(Type.getObjectType(cls));
      else m.visitVarInsn(Opcodes.ALOAD, 0);
    }

    private void synchronizedWrapper(int access, String name, String inner, String desc, String[] ex, boolean isStatic) {
      MethodVisitor m = super.visitMethod(access, name, desc, null, ex);
      m.visitCode();
      Label start = new Label();
      Label end = new Label();
      Label handler = new Label();
      m.visitTryCatchBlock(start, end, handler, null);
      lock(m, isStatic);
      m.visitLdcInsn(site(cls + "." + name + " synchronized", true));
      m.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "enter", "(Ljava/lang/Object;I)V", false);
      m.visitLabel(start);
      List<Object> locals = new ArrayList<>();
      int var = 0;
      if (!isStatic) {
        m.visitVarInsn(Opcodes.ALOAD, var++);
        locals.add(cls);
      }
      for (Type t : Type.getArgumentTypes(desc)) {
        m.visitVarInsn(t.getOpcode(Opcodes.ILOAD), var);
        var += t.getSize();
        locals.add(frameType(t));
      }
      m.visitMethodInsn(isStatic ? Opcodes.INVOKESTATIC : Opcodes.INVOKESPECIAL, cls, inner, desc, itf);
      m.visitLabel(end);
      lock(m, isStatic);
      m.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "exit", "(Ljava/lang/Object;)V", false);
      m.visitInsn(Type.getReturnType(desc).getOpcode(Opcodes.IRETURN));
      m.visitLabel(handler);
      m.visitFrame(Opcodes.F_NEW, locals.size(), locals.toArray(), 1, new Object[] {"java/lang/Throwable"});
      lock(m, isStatic);
      m.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "exit", "(Ljava/lang/Object;)V", false);
      m.visitInsn(Opcodes.ATHROW);
      m.visitMaxs(0, 0);
      m.visitEnd();
    }

    /** A static method that announces the objects involved and makes the call. */
    String wrapper(int opcode, String owner, String name, String desc, boolean ownerItf, String where) {
      String wname = "$mc$" + wrappers++;
      boolean isStatic = opcode == Opcodes.INVOKESTATIC;
      String wdesc = isStatic ? desc : "(" + Type.getObjectType(owner).getDescriptor() + desc.substring(1);
      int site = site(where + " calls " + owner + "." + name, true);
      methods.put(site, name);
      MethodVisitor m =
          super.visitMethod(Opcodes.ACC_PRIVATE | Opcodes.ACC_STATIC | Opcodes.ACC_SYNTHETIC, wname, wdesc, null, null);
      m.visitCode();
      Type[] args = Type.getArgumentTypes(wdesc);
      int var = 0;
      for (Type t : args) {
        boolean receiver = var == 0 && !isStatic;
        if (!receiver && (t.getSort() == Type.OBJECT || t.getSort() == Type.ARRAY)) {
          m.visitVarInsn(Opcodes.ALOAD, var);
          m.visitLdcInsn(site);
          m.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "touchJdk", "(Ljava/lang/Object;I)V", false);
        }
        var += t.getSize();
      }
      if (!isStatic) {
        // last, so that nothing happens between this and the call
        m.visitVarInsn(Opcodes.ALOAD, 0);
        m.visitLdcInsn(site);
        m.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "call", "(Ljava/lang/Object;I)V", false);
      }
      var = 0;
      for (Type t : args) {
        m.visitVarInsn(t.getOpcode(Opcodes.ILOAD), var);
        var += t.getSize();
      }
      m.visitMethodInsn(opcode, owner, name, desc, ownerItf);
      m.visitInsn(Type.getReturnType(desc).getOpcode(Opcodes.IRETURN));
      m.visitMaxs(0, 0);
      m.visitEnd();
      return wname;
    }
  }

  private static Object frameType(Type t) {
    switch (t.getSort()) {
      case Type.LONG:
        return Opcodes.LONG;
      case Type.DOUBLE:
        return Opcodes.DOUBLE;
      case Type.FLOAT:
        return Opcodes.FLOAT;
      case Type.OBJECT:
      case Type.ARRAY:
        return t.getInternalName();
      default:
        return Opcodes.INTEGER;
    }
  }

  private final class Body extends MethodVisitor {
    private final Visitor owner;
    private final String where;
    private final boolean constructor;
    private final boolean clinit;
    private final List<Object[]> pending = new ArrayList<>();

    Body(MethodVisitor mv, Visitor owner, String where, String name) {
      super(Opcodes.ASM9, mv);
      this.owner = owner;
      this.where = where;
      this.constructor = name.equals("<init>");
      this.clinit = name.equals("<clinit>");
    }

    private void hook(String name, String desc) {
      super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, name, desc, false);
    }

    private void touch(int site) {
      super.visitLdcInsn(site);
      hook("touch", "(Ljava/lang/Object;I)V");
    }

    private void touchJdk(int site) {
      super.visitLdcInsn(site);
      hook("touchJdk", "(Ljava/lang/Object;I)V");
    }

    @Override
    public void visitCode() {
      super.visitCode();
      if (clinit) {
        super.visitInsn(Opcodes.ICONST_1);
        hook("quiet", "(I)V");
      }
    }

    @Override
    public void visitFieldInsn(int op, String o, String name, String desc) {
      if (!clinit && !constantField(o, name)) {
        String what = where + " " + o + "." + name;
        boolean wide = desc.equals("J") || desc.equals("D");
        if (op == Opcodes.GETFIELD) {
          super.visitInsn(Opcodes.DUP);
          touch(volatileSite(site("get " + what, false), o, name));
        } else if (op == Opcodes.PUTFIELD && !constructor) {
          int s = volatileSite(site("put " + what, true), o, name);
          if (!wide) {
            super.visitInsn(Opcodes.DUP2);
            super.visitInsn(Opcodes.POP);
            touch(s);
          } else {
            super.visitInsn(Opcodes.DUP2_X1);
            super.visitInsn(Opcodes.POP2);
            super.visitInsn(Opcodes.DUP);
            touch(s);
            super.visitInsn(Opcodes.DUP_X2);
            super.visitInsn(Opcodes.POP);
          }
        } else if (op == Opcodes.GETSTATIC || op == Opcodes.PUTSTATIC) {
          super.visitLdcInsn("static " + o + "." + name);
          touch(volatileSite(site((op == Opcodes.GETSTATIC ? "getstatic " : "putstatic ") + what, op == Opcodes.PUTSTATIC), o, name));
        }
      }
      super.visitFieldInsn(op, o, name, desc);
    }

    private void store(String name, String arr, String val, int site) {
      super.visitLdcInsn(site);
      hook(name, "(" + arr + "I" + val + "I)V");
    }

    @Override
    public void visitInsn(int op) {
      if (op == Opcodes.MONITORENTER) {
        super.visitInsn(Opcodes.DUP);
        super.visitLdcInsn(site(where + " monitor", true));
        hook("enter", "(Ljava/lang/Object;I)V");
        super.visitInsn(op);
        return;
      }
      if (op == Opcodes.MONITOREXIT) {
        super.visitInsn(Opcodes.DUP);
        super.visitInsn(op);
        hook("exit", "(Ljava/lang/Object;)V");
        return;
      }
      if (clinit) {
        if (op == Opcodes.RETURN) {
          super.visitInsn(Opcodes.ICONST_M1);
          hook("quiet", "(I)V");
        }
        super.visitInsn(op);
        return;
      }
      if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) {
        super.visitInsn(Opcodes.DUP2);
        super.visitInsn(Opcodes.POP);
        touch(site(where + " array load", false));
        super.visitInsn(op);
        return;
      }
      if (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) {
        int s = site(where + " array store", true);
        switch (op) {
          case Opcodes.IASTORE:
            store("iastore", "[I", "I", s);
            return;
          case Opcodes.LASTORE:
            store("lastore", "[J", "J", s);
            return;
          case Opcodes.FASTORE:
            store("fastore", "[F", "F", s);
            return;
          case Opcodes.DASTORE:
            store("dastore", "[D", "D", s);
            return;
          case Opcodes.AASTORE:
            store("astore", "[Ljava/lang/Object;", "Ljava/lang/Object;", s);
            return;
          case Opcodes.BASTORE:
            store("bastore", "Ljava/lang/Object;", "I", s);
            return;
          case Opcodes.CASTORE:
            store("castore", "[C", "I", s);
            return;
          default:
            store("sastore", "[S", "I", s);
            return;
        }
      }
      super.visitInsn(op);
    }

    @Override
    public void visitMethodInsn(int op, String o, String name, String desc, boolean itf) {
      if (clinit || raw.containsKey(o) || constantOwners.contains(o)) {
        if (!clinit && o.equals("java/lang/String") && op == Opcodes.INVOKESPECIAL) constructorArgs(o, desc);
        super.visitMethodInsn(op, o, name, desc, itf);
        return;
      }
      if (o.startsWith("[")) {
        super.visitInsn(Opcodes.DUP);
        touch(site(where + " clone", false));
        super.visitMethodInsn(op, o, name, desc, itf);
        return;
      }
      if (op == Opcodes.INVOKESPECIAL) {
        if (name.equals("<init>")) constructorArgs(o, desc);
        super.visitMethodInsn(op, o, name, desc, itf);
        return;
      }
      boolean reference = op != Opcodes.INVOKESTATIC;
      for (Type t : Type.getArgumentTypes(desc)) reference |= t.getSort() >= Type.ARRAY;
      if (!reference) {
        super.visitMethodInsn(op, o, name, desc, itf);
        return;
      }
      String wdesc = op == Opcodes.INVOKESTATIC ? desc : "(" + Type.getObjectType(o).getDescriptor() + desc.substring(1);
      String placeholder = "$mc$" + (owner.wrappers + pending.size());
      pending.add(new Object[] {op, o, name, desc, itf});
      super.visitMethodInsn(Opcodes.INVOKESTATIC, owner.cls, placeholder, wdesc, owner.itf);
    }

    private void constructorArgs(String o, String desc) {
      Type[] a = Type.getArgumentTypes(desc);
      int n = a.length;
      if (n >= 1 && a[n - 1].getSort() >= Type.ARRAY) {
        super.visitInsn(Opcodes.DUP);
        touchJdk(site(where + " new " + o, true));
      } else if (n >= 3 && a[n - 3].getSort() >= Type.ARRAY && a[n - 2] == Type.INT_TYPE && a[n - 1] == Type.INT_TYPE) {
        super.visitInsn(Opcodes.DUP2_X1);
        super.visitInsn(Opcodes.POP2);
        super.visitInsn(Opcodes.DUP);
        touchJdk(site(where + " new " + o, true));
        super.visitInsn(Opcodes.DUP_X2);
        super.visitInsn(Opcodes.POP);
      }
    }

    @Override
    public void visitEnd() {
      super.visitEnd();
      for (Object[] w : pending) owner.wrapper((Integer) w[0], (String) w[1], (String) w[2], (String) w[3], (Boolean) w[4], where);
      pending.clear();
    }
  }
}
