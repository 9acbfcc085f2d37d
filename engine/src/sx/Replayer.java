package sx;

import java.io.InputStream;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.net.URL;
import java.net.URLClassLoader;
import java.util.*;
import java.util.concurrent.*;
import org.objectweb.asm.*;

/** Runs a harness natively, on the JVM, against the classes of the code under test, with concrete inputs. */
final class Replayer {
    static final class Outcome {
        boolean assumption, timeout, blocked; final List<String> failed = new ArrayList<>(), observed = new ArrayList<>();
        Map<String, String> inputs = new LinkedHashMap<>(); String trace = "";
    }

    /** loads the code under test and the harnesses; the clock, and on request the cache, are redirected to the models */
    static final class Loader extends URLClassLoader {
        final boolean cacheModel, points;
        Loader(URL[] u, ClassLoader parent, boolean cacheModel, boolean points) { super(u, parent); this.cacheModel = cacheModel; this.points = points; }
        @Override protected Class<?> findClass(String name) throws ClassNotFoundException {
            byte[] b;
            try (InputStream in = getResourceAsStream(name.replace('.', '/') + ".class")) {
                if (in == null) throw new ClassNotFoundException(name);
                b = in.readAllBytes();
            } catch (java.io.IOException e) { throw new ClassNotFoundException(name, e); }
            if (name.startsWith("com.github.sidhant92.")) b = rewrite(b);
            return defineClass(name, b, 0, b.length);
        }
        private byte[] rewrite(byte[] b) {
            ClassReader r = new ClassReader(b);
            ClassWriter w = new ClassWriter(r, points ? ClassWriter.COMPUTE_MAXS : 0);
            r.accept(new ClassVisitor(Opcodes.ASM9, w) {
                @Override public MethodVisitor visitMethod(int acc, String n, String d, String s, String[] ex) {
                    String method = n;
                    return new MethodVisitor(Opcodes.ASM9, super.visitMethod(acc, n, d, s, ex)) {
                        @Override public void visitInvokeDynamicInsn(String n, String d, Handle bsm, Object... args) {
                            for (int k = 0; k < args.length; k++) if (args[k] instanceof Handle) {
                                Handle x = (Handle) args[k];
                                String to = CLOCK.get(x.getOwner() + "." + x.getName() + x.getDesc()), td = x.getDesc();
                                if (x.getTag() == Opcodes.H_INVOKEVIRTUAL && x.getOwner().equals("java/lang/String") && x.getDesc().equals("()Ljava/lang/String;") && (x.getName().equals("toLowerCase") || x.getName().equals("toUpperCase"))) {
                                    to = x.getName().equals("toLowerCase") ? "lower" : "upper";
                                    td = "(Ljava/lang/String;)Ljava/lang/String;";
                                }
                                if (to != null) args[k] = new Handle(Opcodes.H_INVOKESTATIC, "sx/Sym", to, td, false);
                            }
                            super.visitInvokeDynamicInsn(n, d, bsm, args);
                        }
                        private void point() { if (points) super.visitMethodInsn(Opcodes.INVOKESTATIC, "sx/Sym", "point", "()V", false); }
                        private void clinit(int c) { if (points && method.equals("<clinit>")) { super.visitInsn(c); super.visitMethodInsn(Opcodes.INVOKESTATIC, "sx/Sym", "clinit", "(I)V", false); } }
                        @Override public void visitCode() { super.visitCode(); clinit(Opcodes.ICONST_1); }
                        @Override public void visitInsn(int op) {
                            if (op == Opcodes.RETURN || op == Opcodes.ATHROW) clinit(Opcodes.ICONST_M1);
                            if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) point();
                            super.visitInsn(op);
                        }
                        @Override public void visitFieldInsn(int op, String o, String n, String d) { point(); super.visitFieldInsn(op, o, n, d); }
                        @Override public void visitMethodInsn(int op, String o, String n, String d, boolean itf) {
                            point();
                            String to = op == Opcodes.INVOKESTATIC ? CLOCK.get(o + "." + n + d) : null;
                            if (to != null) super.visitMethodInsn(op, "sx/Sym", to, d, false);
                            else if (op == Opcodes.INVOKESTATIC && n.equals("now") && o.startsWith("java/time/") || d.equals("()V") && n.equals("<init>") && (o.equals("java/util/Date") || o.equals("java/util/GregorianCalendar"))
                                || o.equals("java/util/Calendar") && n.equals("getInstance") || o.startsWith("java/time/Clock") && (n.equals("instant") || n.equals("millis"))) {
                                super.visitMethodInsn(Opcodes.INVOKESTATIC, "sx/Sym", "unmodelled", "()V", false);
                                super.visitMethodInsn(op, o, n, d, itf);
                            } else if (op == Opcodes.INVOKEVIRTUAL && o.equals("java/lang/String") && d.equals("()Ljava/lang/String;") && (n.equals("toLowerCase") || n.equals("toUpperCase")))
                                super.visitMethodInsn(Opcodes.INVOKESTATIC, "sx/Sym", n.equals("toLowerCase") ? "lower" : "upper", "(Ljava/lang/String;)Ljava/lang/String;", false);
                            else if (op == Opcodes.INVOKESTATIC && o.equals("java/util/Locale") && n.equals("getDefault") && d.equals("()Ljava/util/Locale;"))
                                super.visitMethodInsn(op, "sx/Sym", "defaultLocale", d, false);
                            else if (cacheModel && op == Opcodes.INVOKEVIRTUAL && o.equals("com/github/benmanes/caffeine/cache/Caffeine") && n.equals("build") && d.startsWith("()"))
                                super.visitMethodInsn(Opcodes.INVOKESTATIC, "sx/models/CacheModel", "build", "(L" + o + ";)Lcom/github/benmanes/caffeine/cache/Cache;", false);
                            else super.visitMethodInsn(op, o, n, d, itf);
                        }
                    };
                }
            }, 0);
            return w.toByteArray();
        }
    }

    static final Map<String, String> CLOCK = new HashMap<>();
    static {
        for (String z : new String[]{"", "Ljava/time/ZoneId;", "Ljava/time/Clock;"}) {
            CLOCK.put("java/time/LocalDate.now(" + z + ")Ljava/time/LocalDate;", "today");
            CLOCK.put("java/time/LocalDateTime.now(" + z + ")Ljava/time/LocalDateTime;", "now");
        }
        CLOCK.put("java/time/ZonedDateTime.now()Ljava/time/ZonedDateTime;", "nowZoned");
        CLOCK.put("java/time/ZonedDateTime.now(Ljava/time/ZoneId;)Ljava/time/ZonedDateTime;", "nowZoned");
        CLOCK.put("java/time/OffsetDateTime.now()Ljava/time/OffsetDateTime;", "nowOffset");
        CLOCK.put("java/time/LocalTime.now()Ljava/time/LocalTime;", "nowTime");
        CLOCK.put("java/time/Instant.now()Ljava/time/Instant;", "nowInstant");
        CLOCK.put("java/lang/System.currentTimeMillis()J", "nowMillis");
    }
    final URL[] urls; final ClassLoader parent; final int timeoutSec;
    private Loader warm;
    private ExecutorService ex;

    Replayer(URL[] urls, ClassLoader parent, int timeoutSec) { this.urls = urls; this.parent = parent; this.timeoutSec = timeoutSec; }

    private ExecutorService exec() {
        if (ex == null) ex = Executors.newSingleThreadExecutor(r -> {
            Thread t = new Thread(null, r, "replay", 512L << 20);
            t.setDaemon(true);
            return t;
        });
        return ex;
    }

    Outcome run(String cls, String method, Map<String, BigInteger> model, Map<String, Integer> choices, boolean thorough, boolean fresh) {
        boolean evict = false, points = false;
        for (Map.Entry<String, Integer> e : choices.entrySet()) if (e.getValue() != 0) { evict |= e.getKey().startsWith("cache."); points |= e.getKey().startsWith("switch."); }
        Loader l;
        if (fresh || evict || points) l = new Loader(urls, parent, evict, points);
        else { if (warm == null) warm = new Loader(urls, parent, false, false); l = warm; }
        Outcome out = new Outcome();
        Sym.Replay rp = new Sym.Replay(model, choices, thorough);
        Future<?> f = exec().submit(() -> {
            Sym.CUR.set(rp);
            try {
                Method m = Class.forName(cls.replace('/', '.'), true, l).getMethod(method);
                m.invoke(null);
            } catch (InvocationTargetException e) {
                Throwable t = e.getCause();
                if (t instanceof Sym.AssumptionFailed) out.assumption = true;
                else {
                    rp.failed.add("uncaught:" + t.getClass().getName());
                    java.io.StringWriter sw = new java.io.StringWriter();
                    t.printStackTrace(new java.io.PrintWriter(sw));
                    out.trace = sw.toString().substring(0, Math.min(3000, sw.toString().length()));
                }
            } catch (ReflectiveOperationException e) {
                rp.failed.add("replay-error:" + e);
            } finally { Sym.CUR.remove(); }
        });
        try { f.get(timeoutSec, TimeUnit.SECONDS); }
        catch (TimeoutException e) { out.timeout = true; f.cancel(true); ex = null; warm = null; }
        catch (InterruptedException | ExecutionException e) { rp.failed.add("replay-error:" + e); }
        if (rp.assumptionFailed) { out.assumption = true; out.observed.addAll(rp.observed); }
        else if (!out.timeout) { out.failed.addAll(rp.failed); out.observed.addAll(rp.observed); }
        else out.failed.add("timeout");
        out.inputs.putAll(rp.inputs);
        out.blocked = rp.blocked;
        return out;
    }
    void close() { if (ex != null) ex.shutdownNow(); }
}
