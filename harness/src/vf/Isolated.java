package vf;

import java.io.ByteArrayOutputStream;
import java.io.InputStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/** Loads the library and the harness classes which touch it once more, with Noise calls woven into the library. */
final class Isolated extends ClassLoader {
    private static final String LIB = "com.github.sidhant92.";
    private static final Map<String, byte[]> CODE = new ConcurrentHashMap<>();
    private static final java.util.Set<String> MUTATORS = java.util.Set.of("add", "addAll", "put", "putAll", "putIfAbsent", "computeIfAbsent", "compute", "computeIfPresent", "merge", "replace", "set", "getAndSet", "compareAndSet", "remove", "removeIf", "clear", "push", "pop", "poll", "pollFirst", "pollLast", "addFirst", "addLast", "offer", "sort", "replaceAll", "append", "setLength", "insert", "reset");
    static volatile int woven;

    Isolated() { super(Isolated.class.getClassLoader()); }

    static Api fresh() {
        try { return (Api) new Isolated().loadClass("vf.ApiImpl").getDeclaredConstructor().newInstance(); }
        catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
    }

    /** As before, but the generated lexer and parser are set up already, so that the first calls meet in the rest. */
    static Api freshWithGrammar() {
        try {
            Isolated l = new Isolated();
            for (String n : generated()) try { Class.forName(n, true, l); } catch (ClassNotFoundException | LinkageError none) { }
            return (Api) l.loadClass("vf.ApiImpl").getDeclaredConstructor().newInstance();
        } catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
    }
    private static List<String> generated() {
        Path lib = Path.of(System.getProperty("vf.lib"));
        try (java.util.stream.Stream<Path> f = Files.walk(lib)) {
            return f.map(x -> lib.relativize(x).toString()).filter(x -> x.matches(".*Expression(Parser|Lexer)\\.class")).map(x -> x.substring(0, x.length() - 6).replace('/', '.')).toList();
        } catch (java.io.IOException e) { throw new IllegalStateException(e); }
    }

    @Override protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
        boolean mine = name.startsWith(LIB) || name.startsWith("vf.") && !name.equals("vf.Api") && !name.equals("vf.Noise");
        if (!mine) return super.loadClass(name, resolve);
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c == null) {
                byte[] b = CODE.computeIfAbsent(name, Isolated::code);
                if (b.length == 0) throw new ClassNotFoundException(name);
                c = defineClass(name, b, 0, b.length);
            }
            if (resolve) resolveClass(c);
            return c;
        }
    }

    private static byte[] code(String name) {
        try (InputStream in = Isolated.class.getClassLoader().getResourceAsStream(name.replace('.', '/') + ".class")) {
            if (in == null) return new byte[0];
            byte[] b = in.readAllBytes();
            // the generated lexer and parser keep their state per instance: only what is written by hand is woven
            if (!name.startsWith(LIB) || name.contains("BooleanExpressionParser") || name.contains("BooleanExpressionLexer")) return b;
            return weave(b);
        } catch (java.io.IOException e) { throw new IllegalStateException(e); }
    }

    static byte[] weave(byte[] b) {
        ClassReader r = new ClassReader(b);
        ClassWriter w = new ClassWriter(0);
        r.accept(new ClassVisitor(Opcodes.ASM9, w) {
            String cls;
            @Override public void visit(int v, int acc, String n, String sig, String sup, String[] itf) { cls = n.substring(n.lastIndexOf('/') + 1); super.visit(v, acc, n, sig, sup, itf); }
            final java.util.Set<String> mutable = new java.util.HashSet<>();
            @Override public org.objectweb.asm.FieldVisitor visitField(int acc, String n, String d, String s, Object v) { if ((acc & Opcodes.ACC_FINAL) == 0) mutable.add(n); return super.visitField(acc, n, d, s, v); }
            @Override public MethodVisitor visitMethod(int acc, String n, String d, String s, String[] ex) {
                final boolean setup = n.equals("<clinit>") || n.toLowerCase(java.util.Locale.ROOT).contains("init");
                final String where = cls + "." + n;
                return new MethodVisitor(Opcodes.ASM9, super.visitMethod(acc, n, d, s, ex)) {
                    private void call(String m, String de, int id) {
                        super.visitIntInsn(Opcodes.SIPUSH, id);
                        super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Noise", m, de, false);
                    }
                    private void hit(int id) { woven++; call("hit", "(I)V", id); }
                    /** watches an object which lies below the given words on the stack */
                    private void touch(int id, int above) {
                        switch (above) {
                            case 0: super.visitInsn(Opcodes.DUP); break;
                            case 1: super.visitInsn(Opcodes.DUP2); super.visitInsn(Opcodes.POP); break;
                            case 2: super.visitInsn(Opcodes.DUP2_X1); super.visitInsn(Opcodes.POP2); super.visitInsn(Opcodes.DUP_X2); break;
                            case 3: super.visitInsn(Opcodes.DUP2_X2); super.visitInsn(Opcodes.POP2); super.visitInsn(Opcodes.DUP2_X2); super.visitInsn(Opcodes.POP); break;
                            default: return;
                        }
                        call("touch", "(Ljava/lang/Object;I)V", id);
                    }
                    private int write() { return setup && !n.equals("<init>") ? 2 : 1; }
                    @Override public void visitCode() { super.visitCode(); hit(Noise.site(0, where, false)); }
                    @Override public void visitFieldInsn(int op, String o, String nm, String de) {
                        boolean put = op == Opcodes.PUTSTATIC || op == Opcodes.PUTFIELD, stat = op == Opcodes.PUTSTATIC || op == Opcodes.GETSTATIC, own = n.equals("<init>") || stat && n.equals("<clinit>");
                        int k = put && !own ? write() : op == Opcodes.GETFIELD && !cls.endsWith("Builder") && mutable.contains(nm) ? write() : 0;
                        int id = Noise.site(k, where, put);
                        hit(id);
                        if (!own) {
                            if (stat) { super.visitLdcInsn(o + "." + nm); call("touch", "(Ljava/lang/Object;I)V", id); }
                            else touch(id, !put ? 0 : de.equals("J") || de.equals("D") ? 2 : 1);
                        }
                        super.visitFieldInsn(op, o, nm, de);
                        hit(id + 1);
                    }
                    @Override public void visitInsn(int op) {
                        boolean load = op >= Opcodes.IALOAD && op <= Opcodes.SALOAD, store = op >= Opcodes.IASTORE && op <= Opcodes.SASTORE;
                        if (!load && !store || n.equals("<clinit>") || n.equals("$values")) { super.visitInsn(op); return; }
                        int id = Noise.site(0, where, store);
                        hit(id);
                        touch(id, load ? 1 : op == Opcodes.LASTORE || op == Opcodes.DASTORE ? 3 : 2);
                        super.visitInsn(op);
                        hit(id + 1);
                    }
                    @Override public void visitMethodInsn(int op, String o, String nm, String de, boolean itf) {
                        boolean shared = o.startsWith("java/util/") || o.startsWith("java/text/") || o.startsWith("com/github/benmanes") || o.startsWith("java/lang/StringBu") || o.equals("java/lang/ThreadLocal");
                        boolean mutates = shared && MUTATORS.contains(nm);
                        int id = shared ? Noise.site(mutates ? write() : 0, where, mutates) : 0;
                        if (shared) hit(id);
                        if (shared && op != Opcodes.INVOKESTATIC && op != Opcodes.INVOKESPECIAL) {
                            int words = 0; for (org.objectweb.asm.Type t : org.objectweb.asm.Type.getArgumentTypes(de)) words += t.getSize();
                            boolean wide = words == 3 && org.objectweb.asm.Type.getArgumentTypes(de).length < 2;
                            // three words: only (one word, two words) has the object where it can be reached
                            if (words < 3 || !wide && org.objectweb.asm.Type.getArgumentTypes(de)[0].getSize() == 1) touch(id, words);
                        }
                        super.visitMethodInsn(op, o, nm, de, itf);
                        if (shared) hit(id + 1);
                    }
                    @Override public void visitMaxs(int stack, int locals) { super.visitMaxs(stack + 4, locals); }
                };
            }
        }, 0);
        return w.toByteArray();
    }
}
