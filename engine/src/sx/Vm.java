package sx;

import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;
import java.io.InputStream;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.*;

/** Symbolic interpreter for JVM bytecode: one instance per worker thread. */
public final class Vm implements Opcodes {
    static final sun.misc.Unsafe U;
    static {
        try {
            Field f = sun.misc.Unsafe.class.getDeclaredField("theUnsafe");
            f.setAccessible(true);
            U = (sun.misc.Unsafe) f.get(null);
        } catch (Exception e) { throw new ExceptionInInitializerError(e); }
    }

    final ClassLoader loader;
    final HashMap<String, ClassInfo> classes = new HashMap<>();
    final HashMap<String, Nat> nats = new HashMap<>();
    final IdentityHashMap<Object, Object> lifted = new IdentityHashMap<>();
    long[] P = new long[1 << 20];
    Object[] R = new Object[1 << 20];
    int top;
    long retP; Object retR;
    long insns, budget = 400_000_000L;
    int hashSeq;
    static final boolean TRACE = System.getenv("SX_TRACE") != null;
    final Path path;
    final ClassInfo stringCI, objectCI, classCI, throwableCI, bigDecCI, bigIntCI;
    /** methods of the code under test that were interpreted, and those that saw a symbolic value */
    final Set<String> encoded = new TreeSet<>(), encodedSym = new TreeSet<>();
    static final String REPO = "com/github/sidhant92/";
    boolean stringHashZero;
    private final List<ClassInfo> resettable = new ArrayList<>();
    private final Map<Object, Object> boxCache = new HashMap<>();
    MethodInfo curM; int curPc;
    Obj thread;

    public Vm(ClassLoader loader, Path path) {
        this.loader = loader; this.path = path;
        path.vm = this;
        objectCI = cls("java/lang/Object");
        classCI = cls("java/lang/Class");
        stringCI = cls("java/lang/String");
        throwableCI = cls("java/lang/Throwable");
        bigDecCI = cls("java/math/BigDecimal");
        bigIntCI = cls("java/math/BigInteger");
        Natives.install(this);
    }

    // ------------------------------------------------------------------ classes
    static boolean isJdk(String n) { return n.startsWith("java/") || n.startsWith("javax/") || n.startsWith("jdk/") || n.startsWith("sun/"); }

    ClassInfo cls(String name) {
        ClassInfo c = classes.get(name);
        if (c != null) return c;
        if (name.charAt(0) == '[') {
            c = new ClassInfo(this, name);
            c.array = true;
            c.comp = byDesc(name.substring(1));
            c.sup = cls("java/lang/Object");
            c.jdk = true; c.initState = 2; c.access = ACC_PUBLIC | ACC_FINAL;
            classes.put(name, c);
            return c;
        }
        c = new ClassInfo(this, name);
        ClassNode n = new ClassNode();
        try {
            InputStream in = loader.getResourceAsStream(name + ".class");
            if (in == null) in = Object.class.getResourceAsStream("/" + name + ".class");
            if (in == null) {
                if (name.startsWith("sx/")) in = Vm.class.getResourceAsStream("/" + name + ".class");
                if (in == null) throw new Unsupported("class not found: " + name);
            }
            try (InputStream is = in) { new ClassReader(is.readAllBytes()).accept(n, ClassReader.SKIP_FRAMES); }
        } catch (java.io.IOException e) { throw new Unsupported("class " + name + ": " + e); }
        c.node = n; c.access = n.access; c.jdk = isJdk(name);
        if (n.superName != null) c.sup = cls(n.superName);
        c.itfs = new ClassInfo[n.interfaces.size()];
        for (int k = 0; k < c.itfs.length; k++) c.itfs[k] = cls(n.interfaces.get(k));
        List<FieldInfo> inst = new ArrayList<>(), stat = new ArrayList<>();
        if (c.sup != null) Collections.addAll(inst, c.sup.inst);
        for (FieldNode fn : n.fields) {
            FieldInfo f = new FieldInfo(c, fn);
            c.fields.put(f.name, f);
            if (f.isStatic()) { f.slot = stat.size(); stat.add(f); } else { f.slot = inst.size(); inst.add(f); }
        }
        c.inst = inst.toArray(new FieldInfo[0]);
        c.stat = stat.toArray(new FieldInfo[0]);
        for (MethodNode mn : n.methods) { MethodInfo m = new MethodInfo(c, mn); c.methods.put(mn.name + mn.desc, m); }
        n.methods = null;
        c.sticky = c.jdk || name.startsWith("org/") || name.startsWith("io/vavr/") || name.startsWith("com/github/benmanes/") || isAntlrGenerated(c);
        if (!c.sticky) resettable.add(c);
        classes.put(name, c);
        return c;
    }

    private boolean isAntlrGenerated(ClassInfo c) {
        for (ClassInfo s = c.sup; s != null; s = s.sup)
            if (s.name.equals("org/antlr/v4/runtime/Lexer") || s.name.equals("org/antlr/v4/runtime/Parser")) return true;
        return false;
    }

    ClassInfo byDesc(String d) {
        switch (d.charAt(0)) {
            case 'L': return cls(d.substring(1, d.length() - 1));
            case '[': return cls(d);
            default: return prim(d);
        }
    }
    private ClassInfo prim(String d) {
        ClassInfo c = classes.get("#" + d);
        if (c != null) return c;
        c = new ClassInfo(this, d);
        c.primitive = true; c.jdk = true; c.initState = 2; c.access = ACC_PUBLIC | ACC_FINAL | ACC_ABSTRACT;
        classes.put("#" + d, c);
        return c;
    }
    static String primName(String d) {
        switch (d.charAt(0)) {
            case 'I': return "int"; case 'J': return "long"; case 'Z': return "boolean"; case 'B': return "byte"; case 'C': return "char";
            case 'S': return "short"; case 'F': return "float"; case 'D': return "double"; default: return "void";
        }
    }

    Mirror mirror(ClassInfo c) {
        if (c.mirror == null) c.mirror = new Mirror(classCI, c);
        return c.mirror;
    }

    Class<?> hostClass(ClassInfo c) {
        if (!c.hostLooked) {
            c.hostLooked = true;
            try {
                if (c.primitive) {
                    switch (c.name.charAt(0)) {
                        case 'I': c.hostClass = int.class; break; case 'J': c.hostClass = long.class; break; case 'Z': c.hostClass = boolean.class; break;
                        case 'B': c.hostClass = byte.class; break; case 'C': c.hostClass = char.class; break; case 'S': c.hostClass = short.class; break;
                        case 'F': c.hostClass = float.class; break; case 'D': c.hostClass = double.class; break; default: c.hostClass = void.class;
                    }
                } else c.hostClass = Class.forName(c.name.replace('/', '.'), c.jdk, loader);
            } catch (Throwable t) { c.hostClass = null; }
        }
        return c.hostClass;
    }

    ClassInfo classOf(Object ref) {
        if (ref instanceof Ref) return ((Ref) ref).cls;
        if (ref instanceof String) return stringCI;
        throw new Unsupported("classOf " + (ref == null ? "null" : ref.getClass().toString()));
    }

    /** forget everything a previous path left in classes that are re-initialised per path */
    void resetPath(boolean all) {
        top = 0; insns = 0;
        hashSeq = 1; thread = null; curM = null; depth = 0;
        for (ClassInfo c : new ArrayList<>(classes.values())) {
            if (c.jdk || c.primitive || c.array) continue;
            if (c.sticky && !all) continue;
            c.initState = 0; c.sp = null; c.sr = null;
        }
        stringHashZero = false;
    }

    void ensureInit(ClassInfo c) {
        if (c.initState != 0) return;
        c.initState = 1;
        boolean ok = false;
        try {
            if (c.sp == null) { c.sp = new long[c.stat.length]; c.sr = new Object[c.stat.length]; }
            if (c.sup != null) ensureInit(c.sup);
            if (!c.jdk) {
                for (FieldInfo f : c.stat) if (f.constValue != null) {
                    Object v = f.constValue;
                    if (v instanceof String) c.sr[f.slot] = ((String) v).intern(); else c.sp[f.slot] = primBits(v);
                }
                MethodInfo m = c.methods.get("<clinit>()V");
                if (m != null) {
                    int e0 = epoch;
                    epoch = 0;
                    if (sched != null) sched.clinit++;
                    try { exec(m, top); } finally { epoch = e0; if (sched != null) sched.clinit--; }
                }
            }
            ok = true;
            c.initState = 2;
        } finally {
            if (!ok) c.initState = 0;
        }
    }

    static long primBits(Object v) {
        if (v instanceof Double) return Double.doubleToRawLongBits((Double) v);
        if (v instanceof Float) return Float.floatToRawIntBits((Float) v);
        if (v instanceof Character) return (Character) v;
        if (v instanceof Boolean) return (Boolean) v ? 1 : 0;
        return ((Number) v).longValue();
    }

    private void liftStatic(ClassInfo c, FieldInfo f) {
        f.lifted = true;
        Class<?> h = hostClass(c);
        if (h == null) throw new Unsupported("no host class for " + c);
        try {
            U.ensureClassInitialized(h);
            Field hf = null;
            try { hf = h.getDeclaredField(f.name); } catch (NoSuchFieldException e) { /* filtered by reflection */ }
            if (hf == null) { // reflection filters (e.g. System.security)
                if (f.isRef()) { c.sr[f.slot] = null; return; }
                c.sp[f.slot] = 0; return;
            }
            Object v;
            try {
                Object base = U.staticFieldBase(hf);
                long off = U.staticFieldOffset(hf);
                if (f.isRef()) {
                    Object hv = U.getObject(base, off);
                    if (hv != null && hasLambda(hv)) { interpretStatics(c, f); return; }
                    c.sr[f.slot] = lift(hv); return;
                }
                c.sp[f.slot] = readPrim(base, off, f.desc.charAt(0));
            } catch (UnsupportedOperationException e) {
                hf.setAccessible(true);
                v = hf.get(null);
                if (f.isRef()) c.sr[f.slot] = lift(v); else c.sp[f.slot] = primBits(v);
            }
        } catch (ReflectiveOperationException | RuntimeException e) {
            if (e instanceof Unsupported) throw (Unsupported) e;
            throw new Unsupported("static " + c + "." + f.name + ": " + e);
        }
    }

    /** the object is, or directly refers to, a lambda of the host JVM, which cannot be interpreted */
    private static boolean hasLambda(Object h) {
        Class<?> k = h.getClass();
        if (k.isHidden()) return true;
        if (k.isArray() || h instanceof String || h instanceof Class || k.isEnum()) return false;
        for (; k != null && k != Object.class; k = k.getSuperclass())
            for (Field f : k.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) || f.getType().isPrimitive()) continue;
                try {
                    Object v = U.getObject(h, U.objectFieldOffset(f));
                    if (v != null && v.getClass().isHidden()) return true;
                } catch (UnsupportedOperationException e) { /* record or hidden class */ }
            }
        return false;
    }
    /** run the static initialiser of a JDK class instead of copying the host's statics */
    private void interpretStatics(ClassInfo c, FieldInfo want) {
        MethodInfo m = c.methods.get("<clinit>()V");
        if (m == null) throw new Unsupported("no static initialiser in " + c);
        for (FieldInfo f : c.stat) if (f.constValue != null && !f.lifted) liftStatic(c, f);
        want.lifted = false;
        exec(m, top);
        if (!want.lifted) throw new Unsupported("static " + c + "." + want.name + " not set by its initialiser");
    }

    static long readPrim(Object base, long off, char d) {
        switch (d) {
            case 'I': return U.getInt(base, off);
            case 'J': return U.getLong(base, off);
            case 'Z': return U.getBoolean(base, off) ? 1 : 0;
            case 'B': return U.getByte(base, off);
            case 'C': return U.getChar(base, off);
            case 'S': return U.getShort(base, off);
            case 'F': return Float.floatToRawIntBits(U.getFloat(base, off));
            case 'D': return Double.doubleToRawLongBits(U.getDouble(base, off));
            default: throw new IllegalStateException();
        }
    }

    // ------------------------------------------------------------------ lifting and lowering
    Object lift(Object h) {
        if (h == null || h instanceof String || h instanceof Ref) return h;
        if (h instanceof Class) {
            Class<?> k = (Class<?>) h;
            return mirror(infoOf(k));
        }
        if (h instanceof Integer || h instanceof Long || h instanceof Boolean || h instanceof Byte || h instanceof Short || h instanceof Character) {
            Object o = boxCache.get(h);
            if (o == null) {
                Obj b = new Obj(cls(h.getClass().getName().replace('.', '/')));
                b.p[b.cls.slot("value")] = primBits(h);
                boxCache.put(h, o = b);
            }
            return o;
        }
        if (h instanceof Double || h instanceof Float) {
            Obj b = new Obj(cls(h.getClass().getName().replace('.', '/')));
            b.p[b.cls.slot("value")] = primBits(h);
            return b;
        }
        Object o = lifted.get(h);
        if (o != null) return o;
        if (h instanceof BigDecimal && h.getClass() == BigDecimal.class) {
            BigDec b = new BigDec(bigDecCI); b.v = (BigDecimal) h; b.host = h;
            if (isShared(h)) lifted.put(h, b);
            return b;
        }
        if (h instanceof BigInteger && h.getClass() == BigInteger.class) { BigInt b = new BigInt(bigIntCI); b.v = (BigInteger) h; b.host = h; return b; }
        if (h.getClass().isArray()) {
            Arr a = new Arr(infoOf(h.getClass()), java.lang.reflect.Array.getLength(h), true);
            a.host = h; a.filled = false;
            lifted.put(h, a);
            return a;
        }
        Class<?> k = h.getClass();
        if (k.isHidden()) throw new Unsupported("hidden host class " + k.getName());
        Obj r = new Obj(infoOf(k));
        r.host = h; r.filled = false;
        lifted.put(h, r);
        return r;
    }
    private static boolean isShared(Object h) { return h == BigDecimal.ZERO || h == BigDecimal.ONE || h == BigDecimal.TEN; }

    /** lift a fresh immutable result: do not remember its identity */
    Object liftFresh(Object h) {
        Object o = lift(h);
        return o;
    }

    ClassInfo infoOf(Class<?> k) {
        if (k.isPrimitive()) return prim(Type.getDescriptor(k));
        return cls(k.isArray() ? k.getName().replace('.', '/') : k.getName().replace('.', '/'));
    }

    void fill(Obj o) {
        o.filled = true;
        try {
            for (FieldInfo f : o.cls.inst) {
                Class<?> h = hostClass(f.owner);
                Field hf;
                try { hf = h.getDeclaredField(f.name); } catch (NoSuchFieldException e) { continue; }
                if (Modifier.isStatic(hf.getModifiers())) continue;
                try {
                    long off = U.objectFieldOffset(hf);
                    if (f.isRef()) o.r[f.slot] = lift(U.getObject(o.host, off)); else o.p[f.slot] = readPrim(o.host, off, f.desc.charAt(0));
                } catch (UnsupportedOperationException e) {
                    hf.setAccessible(true);
                    Object v = hf.get(o.host);
                    if (f.isRef()) o.r[f.slot] = lift(v); else o.p[f.slot] = primBits(v);
                }
            }
        } catch (ReflectiveOperationException e) { throw new Unsupported("lift " + o.cls + ": " + e); }
    }

    void fill(Arr a) {
        a.filled = true;
        Object h = a.host;
        int n = a.len;
        if (h instanceof Object[]) { a.r = new Object[n]; for (int k = 0; k < n; k++) a.r[k] = lift(((Object[]) h)[k]); return; }
        a.p = new long[n];
        if (h instanceof int[]) for (int k = 0; k < n; k++) a.p[k] = ((int[]) h)[k];
        else if (h instanceof long[]) for (int k = 0; k < n; k++) a.p[k] = ((long[]) h)[k];
        else if (h instanceof byte[]) for (int k = 0; k < n; k++) a.p[k] = ((byte[]) h)[k];
        else if (h instanceof char[]) for (int k = 0; k < n; k++) a.p[k] = ((char[]) h)[k];
        else if (h instanceof short[]) for (int k = 0; k < n; k++) a.p[k] = ((short[]) h)[k];
        else if (h instanceof boolean[]) for (int k = 0; k < n; k++) a.p[k] = ((boolean[]) h)[k] ? 1 : 0;
        else if (h instanceof double[]) for (int k = 0; k < n; k++) a.p[k] = Double.doubleToRawLongBits(((double[]) h)[k]);
        else if (h instanceof float[]) for (int k = 0; k < n; k++) a.p[k] = Float.floatToRawIntBits(((float[]) h)[k]);
        else throw new IllegalStateException();
    }

    static final Object NOPE = new Object();

    /** engine reference -> host object for immutable values, or NOPE */
    Object lower(Object r) {
        if (r == null || r instanceof String) return r;
        if (r instanceof Mirror) return hostClass(((Mirror) r).of);
        if (r instanceof BigDec) { BigDec b = (BigDec) r; return b.v != null ? b.v : NOPE; }
        if (r instanceof BigInt) { BigInt b = (BigInt) r; return b.v != null ? b.v : NOPE; }
        if (r instanceof Arr) {
            Arr a = (Arr) r;
            if (!a.filled) return a.host;
            if (a.cls.comp.primitive) return NOPE;
            Class<?> k = hostClass(a.cls.comp);
            if (k == null) return NOPE;
            Object[] out = (Object[]) java.lang.reflect.Array.newInstance(k, a.len);
            for (int n = 0; n < a.len; n++) { Object x = lower(a.r[n]); if (x == NOPE) return NOPE; out[n] = x; }
            return out;
        }
        if (r instanceof Obj) {
            Obj o = (Obj) r;
            if (o.cls == stringCI) { String s = hostString(o); return s == null ? NOPE : s; }
            switch (o.cls.name) {
                case "java/lang/Integer": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) (int) o.p[o.cls.slot("value")];
                case "java/lang/Long": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) o.p[o.cls.slot("value")];
                case "java/lang/Boolean": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) (o.p[o.cls.slot("value")] != 0);
                case "java/lang/Short": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) (short) o.p[o.cls.slot("value")];
                case "java/lang/Byte": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) (byte) o.p[o.cls.slot("value")];
                case "java/lang/Character": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) (char) o.p[o.cls.slot("value")];
                case "java/lang/Double": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) Double.longBitsToDouble(o.p[o.cls.slot("value")]);
                case "java/lang/Float": return o.r[o.cls.slot("value")] != null ? NOPE : (Object) Float.intBitsToFloat((int) o.p[o.cls.slot("value")]);
                default:
            }
            if (o.host != null && IMMUTABLE_HOST.test(o.host)) return o.host;
            if (o.cls.jdk && o.cls.isSubOf(cls("java/lang/Enum"))) {
                String nm = hostString(o.r[o.cls.slot("name")]);
                Class<?> k = hostClass(o.cls);
                while (k != null && !k.isEnum()) k = k.getSuperclass();
                if (k != null) for (Object e : k.getEnumConstants()) if (((Enum<?>) e).name().equals(nm)) return e;
            }
            if (o.cls.name.equals("java/time/LocalDate")) {
                if (!o.filled) return o.host;
                for (Object x : o.r) if (x instanceof Term) return NOPE;
                return java.time.LocalDate.of((int) o.p[o.cls.slot("year")], (int) o.p[o.cls.slot("month")], (int) o.p[o.cls.slot("day")]);
            }
            if (o.cls.name.equals("java/time/LocalDateTime") || o.cls.name.equals("java/time/LocalTime")) {
                if (!o.filled) return o.host;
                if (o.cls.name.endsWith("LocalDateTime")) {
                    Object d = lower(o.r[o.cls.slot("date")]), t = lower(o.r[o.cls.slot("time")]);
                    if (d == NOPE || t == NOPE) return NOPE;
                    return java.time.LocalDateTime.of((java.time.LocalDate) d, (java.time.LocalTime) t);
                }
                for (Object x : o.r) if (x instanceof Term) return NOPE;
                return java.time.LocalTime.of((int) o.p[o.cls.slot("hour")], (int) o.p[o.cls.slot("minute")], (int) o.p[o.cls.slot("second")], (int) o.p[o.cls.slot("nano")]);
            }
        }
        return NOPE;
    }
    static final java.util.function.Predicate<Object> IMMUTABLE_HOST = h -> h instanceof Enum || h instanceof java.time.format.DateTimeFormatter
        || h instanceof Locale || h instanceof java.time.ZoneId || h instanceof java.math.MathContext || h instanceof java.nio.charset.Charset
        || h instanceof java.util.regex.Pattern || h instanceof java.time.temporal.TemporalAccessor;

    Obj newObj(ClassInfo c) {
        if (c == bigDecCI) return new BigDec(c);
        if (c == bigIntCI) return new BigInt(c);
        return new Obj(c);
    }
    Obj box(String cname, long bits, Object sym) {
        ClassInfo c = cls(cname);
        Obj o = new Obj(c);
        int s = c.slot("value");
        o.p[s] = bits; o.r[s] = sym;
        return o;
    }
    Object boxInt(long v) { return v >= -128 && v <= 127 ? lift((int) v) : box("java/lang/Integer", v, null); }
    long boxBits(Object o) { Obj b = (Obj) o; return b.p[b.cls.slot("value")]; }
    Object boxSym(Object o) { Obj b = (Obj) o; return b.r[b.cls.slot("value")]; }

    // ------------------------------------------------------------------ strings
    /** host string when all characters are concrete, else null */
    String hostString(Object r) {
        if (r == null) return null;
        if (r instanceof String) return (String) r;
        Obj o = (Obj) r;
        if (o.cls != stringCI) throw new Unsupported("not a string: " + o.cls);
        if (o.host instanceof String) return (String) o.host;
        if (o instanceof NumStr && !((NumStr) o).materialised) return null;
        Arr a = (Arr) o.r[slotValue()];
        if (a == null) return null;
        if (!a.filled) fill(a);
        if (a.anySym()) return null;
        String s;
        if (o.p[stringCI.slot("coder")] == 0) {
            char[] cs = new char[a.len];
            for (int k = 0; k < cs.length; k++) cs[k] = (char) (a.p[k] & 0xff);
            s = new String(cs);
        } else {
            char[] cs = new char[a.len / 2];
            for (int k = 0; k < cs.length; k++) cs[k] = (char) ((a.p[2 * k] & 0xff) | (a.p[2 * k + 1] & 0xff) << 8);
            s = new String(cs);
        }
        o.host = s;
        return s;
    }
    private int slotVal = -1;
    int slotValue() { if (slotVal < 0) slotVal = stringCI.slot("value"); return slotVal; }
    final IdentityHashMap<String, Arr> strBytes = new IdentityHashMap<>();
    /** the byte array behind a string */
    Arr bytesOf(Object s) {
        if (s instanceof String) {
            Arr a = strBytes.get(s);
            if (a != null) return a;
            String t = (String) s;
            boolean l1 = latin1(t);
            ClassInfo bc = cls("[B");
            if (l1) { a = new Arr(bc, t.length()); for (int k = 0; k < t.length(); k++) a.p[k] = (byte) t.charAt(k); }
            else { a = new Arr(bc, 2 * t.length()); for (int k = 0; k < t.length(); k++) { a.p[2 * k] = (byte) t.charAt(k); a.p[2 * k + 1] = (byte) (t.charAt(k) >> 8); } }
            if (strBytes.size() > 20000) strBytes.clear();
            strBytes.put(t, a);
            return a;
        }
        Obj o = (Obj) s;
        if (o instanceof NumStr) Natives.materialise(this, (NumStr) o);
        Arr a = (Arr) o.r[slotValue()];
        if (!a.filled) fill(a);
        return a;
    }
    static boolean latin1(String t) { for (int k = 0; k < t.length(); k++) if (t.charAt(k) > 255) return false; return true; }
    boolean isLatin1(Object s) { return s instanceof String ? latin1((String) s) : ((Obj) s).p[stringCI.slot("coder")] == 0; }
    Obj symString(Arr bytes) {
        Obj o = new Obj(stringCI);
        o.r[slotValue()] = bytes;
        return o;
    }
    /** char k of a latin1 string as a term in 0..255 */
    static Term byteTerm(Arr a, int k) {
        Object s = a.r == null ? null : a.r[k];
        if (s == null) return Term.c(a.p[k] & 0xff);
        return Term.mod((Term) s, Term.c(256));
    }

    // ------------------------------------------------------------------ exceptions
    JavaThrow exc(String cname, Object msg) {
        ClassInfo c = cls(cname);
        Obj o = new Obj(c);
        ClassInfo t = throwableCI;
        o.r[t.slot("detailMessage")] = msg;
        o.r[t.slot("cause")] = o;
        FieldInfo sup = t.fields.get("suppressedExceptions");
        if (sup != null) o.r[sup.slot] = null;
        o.r[t.slot("stackTrace")] = new Arr(cls("[Ljava/lang/StackTraceElement;"), 0);
        return new JavaThrow(o);
    }
    JavaThrow npe() { return exc("java/lang/NullPointerException", null); }

    // ------------------------------------------------------------------ decoding
    Code code(MethodInfo m) {
        if (m.code != null) return m.code;
        MethodNode n = m.node;
        if (n == null) throw new Unsupported("no code for " + m);
        InsnList il = n.instructions;
        int cnt = 0;
        IdentityHashMap<AbstractInsnNode, Integer> idx = new IdentityHashMap<>();
        for (AbstractInsnNode x = il.getFirst(); x != null; x = x.getNext()) {
            idx.put(x, cnt);
            if (x.getOpcode() >= 0) cnt++;
        }
        Code c = new Code();
        c.op = new int[cnt + 1]; c.a = new int[cnt + 1]; c.b = new int[cnt + 1]; c.k = new long[cnt + 1]; c.o = new Object[cnt + 1]; c.line = new int[cnt + 1];
        c.op[cnt] = -1;
        c.maxLocals = n.maxLocals; c.maxStack = n.maxStack;
        int i = 0, line = 0;
        for (AbstractInsnNode x = il.getFirst(); x != null; x = x.getNext()) {
            if (x instanceof LineNumberNode) line = ((LineNumberNode) x).line;
            int op = x.getOpcode();
            if (op < 0) continue;
            c.op[i] = op; c.line[i] = line;
            switch (x.getType()) {
                case AbstractInsnNode.INT_INSN: c.a[i] = ((IntInsnNode) x).operand; c.k[i] = c.a[i]; break;
                case AbstractInsnNode.VAR_INSN: c.a[i] = ((VarInsnNode) x).var; break;
                case AbstractInsnNode.TYPE_INSN: c.o[i] = ((TypeInsnNode) x).desc; break;
                case AbstractInsnNode.FIELD_INSN: { FieldInsnNode f = (FieldInsnNode) x; c.o[i] = new FieldRef(f.owner, f.name, f.desc); break; }
                case AbstractInsnNode.METHOD_INSN: {
                    MethodInsnNode q = (MethodInsnNode) x;
                    c.o[i] = new CallSite(q.owner, q.name, q.desc, q.itf, op == INVOKESTATIC); break;
                }
                case AbstractInsnNode.INVOKE_DYNAMIC_INSN: {
                    InvokeDynamicInsnNode q = (InvokeDynamicInsnNode) x;
                    CallSite s = new CallSite("", q.name, q.desc, false, true);
                    s.indy = q; c.o[i] = s; break;
                }
                case AbstractInsnNode.JUMP_INSN: c.a[i] = idx.get(((JumpInsnNode) x).label); break;
                case AbstractInsnNode.LDC_INSN: {
                    Object v = ((LdcInsnNode) x).cst;
                    if (v instanceof String) c.o[i] = ((String) v).intern();
                    else if (v instanceof Number) { c.k[i] = primBits(v); c.b[i] = v instanceof Long || v instanceof Double ? 2 : 1; }
                    else c.o[i] = v;
                    break;
                }
                case AbstractInsnNode.IINC_INSN: c.a[i] = ((IincInsnNode) x).var; c.b[i] = ((IincInsnNode) x).incr; break;
                case AbstractInsnNode.TABLESWITCH_INSN: {
                    TableSwitchInsnNode q = (TableSwitchInsnNode) x;
                    int[] t = new int[q.labels.size()];
                    for (int k = 0; k < t.length; k++) t[k] = idx.get(q.labels.get(k));
                    c.o[i] = t; c.k[i] = q.min; c.a[i] = idx.get(q.dflt); break;
                }
                case AbstractInsnNode.LOOKUPSWITCH_INSN: {
                    LookupSwitchInsnNode q = (LookupSwitchInsnNode) x;
                    int[] t = new int[2 * q.labels.size()];
                    for (int k = 0; k < q.labels.size(); k++) { t[2 * k] = q.keys.get(k); t[2 * k + 1] = idx.get(q.labels.get(k)); }
                    c.o[i] = t; c.a[i] = idx.get(q.dflt); break;
                }
                case AbstractInsnNode.MULTIANEWARRAY_INSN: c.o[i] = ((MultiANewArrayInsnNode) x).desc; c.a[i] = ((MultiANewArrayInsnNode) x).dims; break;
                default:
            }
            if (op >= ICONST_M1 && op <= ICONST_5) c.k[i] = op - ICONST_0;
            i++;
        }
        int h = n.tryCatchBlocks.size();
        c.hs = new int[h]; c.he = new int[h]; c.hh = new int[h]; c.ht = new String[h];
        for (int k = 0; k < h; k++) {
            TryCatchBlockNode t = n.tryCatchBlocks.get(k);
            c.hs[k] = idx.get(t.start); c.he[k] = idx.get(t.end); c.hh[k] = idx.get(t.handler); c.ht[k] = t.type;
        }
        m.node = null;
        m.code = c;
        return c;
    }

    static boolean isIntConst(int op) { return op >= ICONST_M1 && op <= ICONST_5 || op == BIPUSH || op == SIPUSH; }

    // ------------------------------------------------------------------ invocation
    /** arguments at base; the result is left in retP/retR */
    void invoke(MethodInfo m, int base) {
        if (!m.natLooked) {
            m.natLooked = true;
            m.nat = nats.get(m.key);
            if (m.nat == null) m.nat = nats.get(m.owner.name + "." + m.name);
            if (m.nat == null) m.nat = Natives.hostNat(this, m);
        }
        if (m.nat != null) {
            int t0 = top;
            top = Math.max(top, base + m.argSlots + 4);
            try { if (m.nat.call(this, m, base)) return; } finally { top = t0; }
        }
        if (m.isNative()) throw new Unsupported("native " + m);
        if (m.isAbstract()) throw exc("java/lang/AbstractMethodError", m.toString());
        if (m.owner == bigDecCI || m.owner == bigIntCI) throw new Unsupported("symbolic " + m);
        if (sched != null && (m.access & Opcodes.ACC_SYNCHRONIZED) != 0 && m.owner.repo && !sched.inB) {
            Sched s = sched;
            s.hold++;
            try { exec(m, base); } finally { s.hold--; }
            return;
        }
        exec(m, base);
    }

    /**
     * Two callers: the second runs to its end at one of the points where the first is about to touch what it shares. Only what is
     * written by one of them on some path can matter: paths report such writes, and the exploration starts over with the points
     * they call for until there are no more.
     */
    static final class Sched { Object b; long n; int hold, clinit, bDepth; boolean inB, done; String id; Object[][] args = new Object[64][]; }
    Sched sched;
    int epoch, depth;
    void concurrently(String id, Object a, Object b) {
        if (sched != null) throw new Unsupported("nested concurrency");
        Sched s = new Sched();
        s.b = b; s.id = id;
        sched = s; epoch = 1;
        try {
            callVirtual(a, "run", "()V");
            if (!s.done) second(s);
        } finally { sched = null; epoch = 0; }
    }
    private void second(Sched s) {
        int e0 = epoch;
        Obj t0 = thread;
        s.done = true; s.inB = true; s.bDepth = depth; thread = null;
        try { callVirtual(s.b, "run", "()V"); } finally { s.inB = false; epoch = e0; thread = t0; }
    }
    private void point(MethodInfo m, String key) {
        Sched s = sched;
        if (s.inB || s.clinit > 0 || !m.owner.repo) return;
        long k = s.n++;
        if (key == null || !path.task.conflicts.contains(key)) return;
        offer(m, k);
    }
    private void offer(MethodInfo m, long k) {
        Sched s = sched;
        if (s.done || s.hold > 0 || path.choose("switch." + s.id + "." + k, 2) == 0) return;
        int c0 = curPc;
        try { second(s); } finally { curM = m; curPc = c0; }
    }
    /** what an access of this object is an access to; null for what the callers do not share */
    private static String shared(Object x) {
        return !(x instanceof Ref) || ((Ref) x).epoch != 0 || x instanceof LambdaObj || x instanceof Obj && ((Obj) x).host instanceof Enum ? null : ((Ref) x).cls.name;
    }
    private static void keys(Object x, Set<String> to, int up) {
        String k = shared(x);
        if (k != null) { to.add(k); return; }
        // a view of something shared
        if (up > 0 && x instanceof Obj && !(x instanceof LambdaObj) && ((Obj) x).filled && ((Obj) x).cls.name.startsWith("java/util/"))
            for (Object y : ((Obj) x).r) if (y instanceof Obj) keys(y, to, up - 1);
    }
    private void callPoint(MethodInfo m, CallSite s, int sp) {
        Sched d = sched;
        if (d.clinit > 0 || !m.owner.repo) return;
        boolean lib = !s.owner.startsWith("com/github/sidhant92/");
        if (depth >= d.args.length) d.args = Arrays.copyOf(d.args, depth * 2);
        d.args[depth] = lib ? Arrays.copyOfRange(R, sp - s.argSlots, sp) : null;
        if (d.inB) return;
        long k = d.n++;
        if (!lib || d.done || path.task.conflicts.isEmpty()) return;
        Set<String> on = new TreeSet<>();
        for (int j = sp - s.argSlots; j < sp; j++) keys(R[j], on, 2);
        for (String x : on) if (path.task.conflicts.contains(x)) { offer(m, k); return; }
    }
    /** a write, by the code under test or on its behalf */
    private void wrote(MethodInfo m, String key, Object x) {
        if (key == null || sched.clinit > 0) return;
        if (m != null && m.owner.repo) { path.wrote(key); return; }
        // what a library writes counts as a write to what it was given
        Set<String> on = new TreeSet<>();
        for (int j = sched.inB ? sched.bDepth + 1 : 0; j <= depth && j < sched.args.length; j++) if (sched.args[j] != null) for (Object y : sched.args[j]) if (y instanceof Ref && reaches((Ref) y, x)) keys(y, on, 2);
        for (String k : on) path.wrote(k);
    }
    /** a write to an object outside the interpreter loop */
    void wrote(Object x) { if (sched != null) wrote(null, shared(x), x); }
    private static boolean reaches(Ref from, Object to) {
        Set<Object> seen = Collections.newSetFromMap(new IdentityHashMap<>());
        ArrayDeque<Object> q = new ArrayDeque<>();
        q.add(from);
        while (!q.isEmpty() && seen.size() < 5000) {
            Object x = q.poll();
            if (x == to) return true;
            if (!seen.add(x) || x instanceof LambdaObj) continue;
            Object[] r = x instanceof Obj ? ((Obj) x).r : x instanceof Arr ? ((Arr) x).r : null;
            if (r != null) for (Object y : r) if (y instanceof Obj || y instanceof Arr) q.add(y);
        }
        return !q.isEmpty();
    }

    /** call with host-side argument list: longs for primitives (or Term), objects for references */
    Object call(MethodInfo m, Object... args) {
        int base = top, s = base;
        int ai = 0;
        if (!m.isStatic()) { P[s] = 0; R[s++] = args[ai++]; }
        for (Type t : m.args) {
            Object v = args[ai++];
            if (t.getSort() == Type.OBJECT || t.getSort() == Type.ARRAY) { R[s] = v; }
            else if (v instanceof Long) { P[s] = (Long) v; R[s] = null; }
            else if (v instanceof Integer) { P[s] = (Integer) v; R[s] = null; }
            else R[s] = v;
            s += t.getSize();
        }
        int t0 = top;
        top = s;
        try { invoke(m, base); } finally { top = t0; }
        return m.retRef ? retR : m.retSize == 0 ? null : retR != null ? retR : (Object) retP;
    }
    Object callVirtual(Object recv, String name, String desc, Object... args) {
        if (recv == null) throw npe();
        MethodInfo m = classOf(recv).findVirtual(name + desc);
        if (m == null) throw new Unsupported("no method " + classOf(recv) + "." + name + desc);
        Object[] all = new Object[args.length + 1];
        all[0] = recv;
        System.arraycopy(args, 0, all, 1, args.length);
        if (recv instanceof LambdaObj && m.isAbstract()) {
            return Natives.callLambdaDirect(this, (LambdaObj) recv, m, all);
        }
        return call(m, all);
    }
    String toStr(Object ref) {
        if (ref == null) return "null";
        Object s = callVirtual(ref, "toString", "()Ljava/lang/String;");
        String h = s == null ? "null" : hostString(s);
        return h == null ? "<symbolic>" : h;
    }

    MethodInfo findMethod(ClassInfo c, String nd) {
        for (ClassInfo k = c; k != null; k = k.sup) { MethodInfo m = k.methods.get(nd); if (m != null) return m; }
        for (ClassInfo k : c.supers()) { MethodInfo m = k.methods.get(nd); if (m != null) return m; }
        return null;
    }

    private Term sym(int slot) { Object s = R[slot]; return s == null ? Term.c(P[slot]) : (Term) s; }
    private void setI(int slot, Term t) { if (t.isConst()) { P[slot] = t.k.intValue(); R[slot] = null; } else R[slot] = t; }
    private void setL(int slot, Term t) { if (t.isConst()) { P[slot] = t.k.longValue(); R[slot] = null; } else R[slot] = t; }
    Term argT(int slot) { return sym(slot); }
    void retTerm(Term t) { if (t.isConst()) { retP = t.k.longValue(); retR = null; } else { retP = 0; retR = t; } }
    void retBool(Term t) { retTerm(Term.ofBool(t)); }
    void ret(Object o) { retR = o; retP = 0; }
    void retPrim(long v) { retP = v; retR = null; }

    private Term condTerm(int op, int sp) {
        switch (op) {
            case IFEQ: return Term.eq(sym(sp - 1), Term.c(0));
            case IFNE: return Term.not(Term.eq(sym(sp - 1), Term.c(0)));
            case IFLT: return Term.lt(sym(sp - 1), Term.c(0));
            case IFGE: return Term.ge(sym(sp - 1), Term.c(0));
            case IFGT: return Term.gt(sym(sp - 1), Term.c(0));
            case IFLE: return Term.le(sym(sp - 1), Term.c(0));
            case IF_ICMPEQ: return Term.eq(sym(sp - 2), sym(sp - 1));
            case IF_ICMPNE: return Term.not(Term.eq(sym(sp - 2), sym(sp - 1)));
            case IF_ICMPLT: return Term.lt(sym(sp - 2), sym(sp - 1));
            case IF_ICMPGE: return Term.ge(sym(sp - 2), sym(sp - 1));
            case IF_ICMPGT: return Term.gt(sym(sp - 2), sym(sp - 1));
            case IF_ICMPLE: return Term.le(sym(sp - 2), sym(sp - 1));
            default: throw new IllegalStateException();
        }
    }

    /** reference equality, with value identity for boxed primitives whose identity is value based */
    private Term sameRef(Object x, Object y) {
        if (x == y) return Term.TRUE;
        if (x == null || y == null) return Term.FALSE;
        if (x instanceof Obj && y instanceof Obj && ((Obj) x).cls == ((Obj) y).cls) {
            Obj a = (Obj) x, b = (Obj) y;
            String n = a.cls.name;
            if (n.equals("java/lang/Boolean") || n.equals("java/lang/Integer") || n.equals("java/lang/Long")) {
                Object s = boxSym(a), t = boxSym(b);
                if (s == null && t == null) {
                    if (n.equals("java/lang/Boolean")) return Term.bool(boxBits(a) == boxBits(b));
                    return Term.FALSE;
                }
                Term p = s != null ? (Term) s : Term.c(boxBits(a)), q = t != null ? (Term) t : Term.c(boxBits(b));
                Term e = Term.eq(p, q);
                if (!n.equals("java/lang/Boolean")) e = Term.and(e, Term.and(Term.ge(p, Term.c(-128)), Term.le(p, Term.c(127))));
                return e;
            }
        }
        return Term.FALSE;
    }

    /** symbolic branch: constant-select pattern avoids a fork; returns the new pc, updating top of stack through P/R */
    private int selPc, selSp;
    private boolean select(Code c, int pc, int target, Term cond, int sp) {
        int[] op = c.op;
        int f = pc + 1;
        if (isIntConst(op[f]) && isIntConst(op[target])) {
            boolean ok = false;
            if (op[f + 1] == GOTO && c.a[f + 1] == target + 1) { selPc = target + 1; ok = true; }
            else if (op[f + 1] == IRETURN && op[target + 1] == IRETURN) { selPc = target + 1; ok = true; }
            else if (op[f + 1] == GOTO && op[target + 1] == GOTO && c.a[f + 1] == c.a[target + 1]) { selPc = c.a[f + 1]; ok = true; }
            if (ok) {
                setI(sp, Term.ite(cond, Term.c(c.k[target]), Term.c(c.k[f])));
                selSp = sp + 1;
                return true;
            }
        }
        return false;
    }

    String where(MethodInfo m, int pc) { return m.owner.name + "." + m.name + ":" + (m.code == null ? 0 : m.code.line[pc]); }

    void arrCheck(Arr a, int idxSlot) {
        if (R[idxSlot] != null) {
            Term t = (Term) R[idxSlot];
            if (!path.branch(Term.and(Term.ge(t, Term.c(0)), Term.lt(t, Term.c(a.len)))))
                throw exc("java/lang/ArrayIndexOutOfBoundsException", "symbolic index");
            if (a.cls.comp.primitive && a.len <= 512 && a.filled) return; // read through an ite chain
            P[idxSlot] = path.pick(t).intValueExact();
            R[idxSlot] = null;
        } else {
            long i = P[idxSlot];
            if (i < 0 || i >= a.len) throw exc("java/lang/ArrayIndexOutOfBoundsException", "Index " + i + " out of bounds for length " + a.len);
        }
    }
    private void arrRead(Arr a, int idxSlot, int dst) {
        if (R[idxSlot] != null) {
            Term t = (Term) R[idxSlot];
            int lo = Math.max(0, t.lo.max(Term.Z).intValue()), hi = t.hi.min(BigInteger.valueOf(a.len - 1)).intValue();
            Term acc = null;
            for (int k = lo; k <= hi; ) {
                int e = k;
                if (a.r == null || a.r[k] == null) while (e + 1 <= hi && (a.r == null || a.r[e + 1] == null) && a.p[e + 1] == a.p[k]) e++;
                Term v = a.r != null && a.r[k] != null ? (Term) a.r[k] : Term.c(a.p[k]);
                acc = acc == null ? v : Term.ite(Term.ge(t, Term.c(k)), v, acc);
                k = e + 1;
            }
            setL(dst, acc);
            return;
        }
        int i = (int) P[idxSlot];
        P[dst] = a.p[i];
        R[dst] = a.r == null ? null : a.r[i];
    }

    /** interpret m; its locals start at base (arguments already there) */
    void exec(MethodInfo m, final int base) {
        final Code c = code(m);
        final int[] op = c.op, ca = c.a;
        final int sb = base + c.maxLocals;
        final long[] P = this.P; final Object[] R = this.R;
        if (sb + c.maxStack + 16 > P.length) throw new Unsupported("interpreter stack overflow in " + m);
        final int oldTop = top;
        final MethodInfo oldM = curM;
        curM = m;
        depth++;
        if (sched != null && depth < sched.args.length) sched.args[depth] = null;
        top = sb + c.maxStack + 1;
        if (!m.seen) { m.seen = true; if (m.owner.name.startsWith(REPO)) encoded.add(m.owner.name.substring(REPO.length()) + "." + m.name); }
        if (!m.symSeen && m.owner.name.startsWith(REPO)) {
            for (int k = 0; k < m.argSlots; k++) if (isSymbolicish(R[base + k])) { m.symSeen = true; encodedSym.add(m.owner.name.substring(REPO.length()) + "." + m.name); break; }
        }
        int sp = sb, pc = 0;
        try {
            for (;;) {
                try {
                    for (;;) {
                        if (++insns > budget) throw new Unsupported("instruction budget exhausted");
                        int o = op[pc];
                        switch (o) {
                            case NOP: pc++; break;
                            case ACONST_NULL: R[sp++] = null; pc++; break;
                            case ICONST_M1: case ICONST_0: case ICONST_1: case ICONST_2: case ICONST_3: case ICONST_4: case ICONST_5: case BIPUSH: case SIPUSH:
                                P[sp] = c.k[pc]; R[sp++] = null; pc++; break;
                            case LCONST_0: case LCONST_1: P[sp] = o - LCONST_0; R[sp] = null; sp += 2; pc++; break;
                            case FCONST_0: case FCONST_1: case FCONST_2: P[sp] = Float.floatToRawIntBits(o - FCONST_0); R[sp++] = null; pc++; break;
                            case DCONST_0: case DCONST_1: P[sp] = Double.doubleToRawLongBits(o - DCONST_0); R[sp] = null; sp += 2; pc++; break;
                            case LDC: {
                                if (c.b[pc] != 0) { P[sp] = c.k[pc]; R[sp] = null; sp += c.b[pc]; }
                                else {
                                    Object v = c.o[pc];
                                    if (v instanceof Type) { if (((Type) v).getSort() == Type.METHOD) throw new Unsupported("ldc methodtype"); v = mirror(byDesc(((Type) v).getDescriptor())); c.o[pc] = v; }
                                    else if (!(v instanceof String) && !(v instanceof Mirror)) throw new Unsupported("ldc " + v);
                                    R[sp++] = v;
                                }
                                pc++; break;
                            }
                            case ILOAD: case FLOAD: { int l = base + ca[pc]; P[sp] = P[l]; R[sp++] = R[l]; pc++; break; }
                            case LLOAD: case DLOAD: { int l = base + ca[pc]; P[sp] = P[l]; R[sp] = R[l]; sp += 2; pc++; break; }
                            case ALOAD: R[sp++] = R[base + ca[pc]]; pc++; break;
                            case ISTORE: case FSTORE: { int l = base + ca[pc]; sp--; P[l] = P[sp]; R[l] = R[sp]; pc++; break; }
                            case LSTORE: case DSTORE: { int l = base + ca[pc]; sp -= 2; P[l] = P[sp]; R[l] = R[sp]; pc++; break; }
                            case ASTORE: R[base + ca[pc]] = R[--sp]; pc++; break;
                            case IALOAD: case BALOAD: case CALOAD: case SALOAD: case FALOAD: {
                                if (sched != null) point(m, shared(R[sp - 2]));
                                Arr a = (Arr) R[sp - 2]; if (a == null) throw npe();
                                if (!a.filled) fill(a);
                                arrCheck(a, sp - 1); arrRead(a, sp - 1, sp - 2); sp--; pc++; break;
                            }
                            case LALOAD: case DALOAD: {
                                if (sched != null) point(m, shared(R[sp - 2]));
                                Arr a = (Arr) R[sp - 2]; if (a == null) throw npe();
                                if (!a.filled) fill(a);
                                arrCheck(a, sp - 1); arrRead(a, sp - 1, sp - 2); pc++; break;
                            }
                            case AALOAD: {
                                if (sched != null) point(m, shared(R[sp - 2]));
                                Arr a = (Arr) R[sp - 2]; if (a == null) throw npe();
                                if (!a.filled) fill(a);
                                arrCheck(a, sp - 1);
                                R[sp - 2] = a.r[(int) P[sp - 1]]; sp--; pc++; break;
                            }
                            case IASTORE: case BASTORE: case CASTORE: case SASTORE: case FASTORE: {
                                if (sched != null) { point(m, shared(R[sp - 3])); wrote(m, shared(R[sp - 3]), R[sp - 3]); }
                                Arr a = (Arr) R[sp - 3]; if (a == null) throw npe();
                                storePrim(a, sp - 2, sp - 1, o);
                                sp -= 3; pc++; break;
                            }
                            case LASTORE: case DASTORE: {
                                if (sched != null) { point(m, shared(R[sp - 4])); wrote(m, shared(R[sp - 4]), R[sp - 4]); }
                                Arr a = (Arr) R[sp - 4]; if (a == null) throw npe();
                                storePrim(a, sp - 3, sp - 2, o);
                                sp -= 4; pc++; break;
                            }
                            case AASTORE: {
                                if (sched != null) { point(m, shared(R[sp - 3])); wrote(m, shared(R[sp - 3]), R[sp - 3]); }
                                Arr a = (Arr) R[sp - 3]; if (a == null) throw npe();
                                if (!a.filled) fill(a);
                                arrCheck(a, sp - 2);
                                if (R[sp - 2] != null) { P[sp - 2] = path.pick((Term) R[sp - 2]).intValueExact(); R[sp - 2] = null; }
                                Object v = R[sp - 1];
                                if (v != null && a.cls.comp != objectCI && !classOf(v).isSubOf(a.cls.comp)) throw exc("java/lang/ArrayStoreException", classOf(v).name.replace('/', '.'));
                                a.r[(int) P[sp - 2]] = v;
                                sp -= 3; pc++; break;
                            }
                            case POP: sp--; pc++; break;
                            case POP2: sp -= 2; pc++; break;
                            case DUP: P[sp] = P[sp - 1]; R[sp] = R[sp - 1]; sp++; pc++; break;
                            case DUP_X1: cp(sp, sp - 1); cp(sp - 1, sp - 2); cp(sp - 2, sp); sp++; pc++; break;
                            case DUP_X2: cp(sp, sp - 1); cp(sp - 1, sp - 2); cp(sp - 2, sp - 3); cp(sp - 3, sp); sp++; pc++; break;
                            case DUP2: cp(sp, sp - 2); cp(sp + 1, sp - 1); sp += 2; pc++; break;
                            case DUP2_X1: cp(sp + 1, sp - 1); cp(sp, sp - 2); cp(sp - 1, sp - 3); cp(sp - 2, sp + 1); cp(sp - 3, sp); sp += 2; pc++; break;
                            case DUP2_X2: cp(sp + 1, sp - 1); cp(sp, sp - 2); cp(sp - 1, sp - 3); cp(sp - 2, sp - 4); cp(sp - 3, sp + 1); cp(sp - 4, sp); sp += 2; pc++; break;
                            case SWAP: { cp(sp, sp - 1); cp(sp - 1, sp - 2); cp(sp - 2, sp); pc++; break; }

                            case IADD: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2] + (int) P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case ISUB: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2] - (int) P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case IMUL: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2] * (int) P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case IDIV: case IREM:
                                if (R[sp - 1] == null && R[sp - 2] == null) {
                                    if ((int) P[sp - 1] == 0) throw exc("java/lang/ArithmeticException", "/ by zero");
                                    P[sp - 2] = o == IDIV ? (int) P[sp - 2] / (int) P[sp - 1] : (int) P[sp - 2] % (int) P[sp - 1];
                                } else symArith(o, sp);
                                sp--; pc++; break;
                            case IAND: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] &= P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case IOR: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] |= P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case IXOR: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] ^= P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case ISHL: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2] << (int) P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case ISHR: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2] >> (int) P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case IUSHR: if (R[sp - 1] == null && R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2] >>> (int) P[sp - 1]; else symArith(o, sp); sp--; pc++; break;
                            case INEG: if (R[sp - 1] == null) P[sp - 1] = -(int) P[sp - 1]; else setI(sp - 1, Term.wrap32(Term.neg(sym(sp - 1)))); pc++; break;
                            case LADD: if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] += P[sp - 2]; else symArithL(o, sp); sp -= 2; pc++; break;
                            case LSUB: if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] -= P[sp - 2]; else symArithL(o, sp); sp -= 2; pc++; break;
                            case LMUL: if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] *= P[sp - 2]; else symArithL(o, sp); sp -= 2; pc++; break;
                            case LDIV: case LREM:
                                if (R[sp - 2] == null && R[sp - 4] == null) {
                                    if (P[sp - 2] == 0) throw exc("java/lang/ArithmeticException", "/ by zero");
                                    P[sp - 4] = o == LDIV ? P[sp - 4] / P[sp - 2] : P[sp - 4] % P[sp - 2];
                                } else symArithL(o, sp);
                                sp -= 2; pc++; break;
                            case LAND: if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] &= P[sp - 2]; else symArithL(o, sp); sp -= 2; pc++; break;
                            case LOR: if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] |= P[sp - 2]; else symArithL(o, sp); sp -= 2; pc++; break;
                            case LXOR: if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] ^= P[sp - 2]; else symArithL(o, sp); sp -= 2; pc++; break;
                            case LSHL: if (R[sp - 1] == null && R[sp - 3] == null) P[sp - 3] <<= (int) P[sp - 1]; else symShiftL(o, sp); sp--; pc++; break;
                            case LSHR: if (R[sp - 1] == null && R[sp - 3] == null) P[sp - 3] >>= (int) P[sp - 1]; else symShiftL(o, sp); sp--; pc++; break;
                            case LUSHR: if (R[sp - 1] == null && R[sp - 3] == null) P[sp - 3] >>>= (int) P[sp - 1]; else symShiftL(o, sp); sp--; pc++; break;
                            case LNEG: if (R[sp - 2] == null) P[sp - 2] = -P[sp - 2]; else setL(sp - 2, Term.wrap64(Term.neg(sym(sp - 2)))); pc++; break;

                            case FADD: case FSUB: case FMUL: case FDIV: case FREM: {
                                if (R[sp - 1] != null || R[sp - 2] != null) throw new Unsupported("symbolic float");
                                float x = Float.intBitsToFloat((int) P[sp - 2]), y = Float.intBitsToFloat((int) P[sp - 1]);
                                float z = o == FADD ? x + y : o == FSUB ? x - y : o == FMUL ? x * y : o == FDIV ? x / y : x % y;
                                P[sp - 2] = Float.floatToRawIntBits(z); sp--; pc++; break;
                            }
                            case FNEG: P[sp - 1] = Float.floatToRawIntBits(-Float.intBitsToFloat((int) P[sp - 1])); pc++; break;
                            case DADD: case DSUB: case DMUL: case DDIV: case DREM: {
                                if (R[sp - 2] != null || R[sp - 4] != null) { R[sp - 4] = Natives.dArith(this, o, dbl(sp - 4), dbl(sp - 2)); sp -= 2; pc++; break; }
                                double x = Double.longBitsToDouble(P[sp - 4]), y = Double.longBitsToDouble(P[sp - 2]);
                                double z = o == DADD ? x + y : o == DSUB ? x - y : o == DMUL ? x * y : o == DDIV ? x / y : x % y;
                                P[sp - 4] = Double.doubleToRawLongBits(z); sp -= 2; pc++; break;
                            }
                            case DNEG:
                                if (R[sp - 2] != null) { SDouble d = dbl(sp - 2); R[sp - 2] = new SDouble(Term.neg(d.n), d.k); } // -0.0 excluded by the inputs' encoding
                                else P[sp - 2] = Double.doubleToRawLongBits(-Double.longBitsToDouble(P[sp - 2]));
                                pc++; break;
                            case IINC: {
                                int l = base + ca[pc];
                                if (R[l] == null) P[l] = (int) P[l] + c.b[pc]; else setI(l, Term.wrap32(Term.add(sym(l), Term.c(c.b[pc]))));
                                pc++; break;
                            }
                            case I2L: sp++; pc++; break;
                            case I2F: if (R[sp - 1] != null) throw new Unsupported("symbolic i2f"); P[sp - 1] = Float.floatToRawIntBits((float) (int) P[sp - 1]); pc++; break;
                            case I2D: if (R[sp - 1] == null) P[sp - 1] = Double.doubleToRawLongBits((double) (int) P[sp - 1]); else R[sp - 1] = new SDouble(sym(sp - 1), 0); sp++; pc++; break;
                            case L2I: if (R[sp - 2] == null) P[sp - 2] = (int) P[sp - 2]; else setI(sp - 2, Term.wrap32(sym(sp - 2))); sp--; pc++; break;
                            case L2F: if (R[sp - 2] != null) throw new Unsupported("symbolic l2f"); P[sp - 2] = Float.floatToRawIntBits((float) P[sp - 2]); sp--; pc++; break;
                            case L2D: if (R[sp - 2] == null) P[sp - 2] = Double.doubleToRawLongBits((double) P[sp - 2]); else Natives.l2d(this, sp - 2); pc++; break;
                            case F2I: P[sp - 1] = (int) Float.intBitsToFloat((int) P[sp - 1]); pc++; break;
                            case F2L: P[sp - 1] = (long) Float.intBitsToFloat((int) P[sp - 1]); sp++; pc++; break;
                            case F2D: if (R[sp - 1] == null) P[sp - 1] = Double.doubleToRawLongBits((double) Float.intBitsToFloat((int) P[sp - 1])); sp++; pc++; break;
                            case D2I: if (R[sp - 2] == null) P[sp - 2] = (int) Double.longBitsToDouble(P[sp - 2]); else setI(sp - 2, Natives.d2x(dbl(sp - 2), Term.I_MIN, Term.I_MAX)); sp--; pc++; break;
                            case D2L: if (R[sp - 2] == null) P[sp - 2] = (long) Double.longBitsToDouble(P[sp - 2]); else setL(sp - 2, Natives.d2x(dbl(sp - 2), Term.L_MIN, Term.L_MAX)); pc++; break;
                            case D2F: if (R[sp - 2] != null) throw new Unsupported("symbolic d2f"); P[sp - 2] = Float.floatToRawIntBits((float) Double.longBitsToDouble(P[sp - 2])); sp--; pc++; break;
                            case I2B: if (R[sp - 1] == null) P[sp - 1] = (byte) P[sp - 1]; else setI(sp - 1, Term.wrap(sym(sp - 1), 8)); pc++; break;
                            case I2C: if (R[sp - 1] == null) P[sp - 1] = (char) P[sp - 1]; else setI(sp - 1, Term.mod(sym(sp - 1), Term.c(65536))); pc++; break;
                            case I2S: if (R[sp - 1] == null) P[sp - 1] = (short) P[sp - 1]; else setI(sp - 1, Term.wrap(sym(sp - 1), 16)); pc++; break;
                            case LCMP:
                                if (R[sp - 2] == null && R[sp - 4] == null) P[sp - 4] = Long.compare(P[sp - 4], P[sp - 2]);
                                else setI(sp - 4, Term.compare(sym(sp - 4), sym(sp - 2)));
                                sp -= 3; pc++; break;
                            case FCMPL: case FCMPG: {
                                if (R[sp - 1] != null || R[sp - 2] != null) throw new Unsupported("symbolic float compare");
                                float x = Float.intBitsToFloat((int) P[sp - 2]), y = Float.intBitsToFloat((int) P[sp - 1]);
                                P[sp - 2] = x < y ? -1 : x > y ? 1 : x == y ? 0 : o == FCMPL ? -1 : 1; sp--; pc++; break;
                            }
                            case DCMPL: case DCMPG: {
                                if (R[sp - 2] != null || R[sp - 4] != null) {
                                    SDouble x = dbl(sp - 4), y = dbl(sp - 2);
                                    int k = Math.max(x.k, y.k);
                                    setI(sp - 4, Term.compare(Natives.scaleD(x, k), Natives.scaleD(y, k)));
                                    sp -= 3; pc++; break;
                                }
                                double x = Double.longBitsToDouble(P[sp - 4]), y = Double.longBitsToDouble(P[sp - 2]);
                                P[sp - 4] = x < y ? -1 : x > y ? 1 : x == y ? 0 : o == DCMPL ? -1 : 1; R[sp - 4] = null; sp -= 3; pc++; break;
                            }
                            case IFEQ: case IFNE: case IFLT: case IFGE: case IFGT: case IFLE: {
                                if (R[sp - 1] == null) {
                                    int v = (int) P[sp - 1];
                                    boolean t = o == IFEQ ? v == 0 : o == IFNE ? v != 0 : o == IFLT ? v < 0 : o == IFGE ? v >= 0 : o == IFGT ? v > 0 : v <= 0;
                                    sp--;
                                    pc = t ? ca[pc] : pc + 1;
                                } else {
                                    Term t = condTerm(o, sp);
                                    sp--;
                                    curPc = pc;
                                    if (!t.isTrue() && !t.isFalse() && select(c, pc, ca[pc], t, sp)) { pc = selPc; sp = selSp; }
                                    else pc = path.branch(t) ? ca[pc] : pc + 1;
                                }
                                break;
                            }
                            case IF_ICMPEQ: case IF_ICMPNE: case IF_ICMPLT: case IF_ICMPGE: case IF_ICMPGT: case IF_ICMPLE: {
                                if (R[sp - 1] == null && R[sp - 2] == null) {
                                    int x = (int) P[sp - 2], y = (int) P[sp - 1];
                                    boolean t = o == IF_ICMPEQ ? x == y : o == IF_ICMPNE ? x != y : o == IF_ICMPLT ? x < y : o == IF_ICMPGE ? x >= y : o == IF_ICMPGT ? x > y : x <= y;
                                    sp -= 2;
                                    pc = t ? ca[pc] : pc + 1;
                                } else {
                                    Term t = condTerm(o, sp);
                                    sp -= 2;
                                    curPc = pc;
                                    if (!t.isTrue() && !t.isFalse() && select(c, pc, ca[pc], t, sp)) { pc = selPc; sp = selSp; }
                                    else pc = path.branch(t) ? ca[pc] : pc + 1;
                                }
                                break;
                            }
                            case IF_ACMPEQ: case IF_ACMPNE: {
                                Object x = R[sp - 2], y = R[sp - 1];
                                sp -= 2;
                                Term t = sameRef(x, y);
                                curPc = pc;
                                boolean e = path.branch(t);
                                pc = e == (o == IF_ACMPEQ) ? ca[pc] : pc + 1;
                                break;
                            }
                            case IFNULL: pc = R[--sp] == null ? ca[pc] : pc + 1; break;
                            case IFNONNULL: pc = R[--sp] != null ? ca[pc] : pc + 1; break;
                            case GOTO: pc = ca[pc]; break;
                            case TABLESWITCH: {
                                int[] t = (int[]) c.o[pc];
                                long min = c.k[pc];
                                sp--;
                                if (R[sp] == null) {
                                    long v = (int) P[sp] - min;
                                    pc = v >= 0 && v < t.length ? t[(int) v] : ca[pc];
                                } else {
                                    Term v = (Term) R[sp];
                                    int dst = ca[pc];
                                    curPc = pc;
                                    for (int k = 0; k < t.length; k++) if (path.branch(Term.eq(v, Term.c(min + k)))) { dst = t[k]; break; }
                                    pc = dst;
                                }
                                break;
                            }
                            case LOOKUPSWITCH: {
                                int[] t = (int[]) c.o[pc];
                                sp--;
                                int dst = ca[pc];
                                if (R[sp] == null) {
                                    int v = (int) P[sp];
                                    for (int k = 0; k < t.length; k += 2) if (t[k] == v) { dst = t[k + 1]; break; }
                                } else {
                                    Term v = (Term) R[sp];
                                    curPc = pc;
                                    for (int k = 0; k < t.length; k += 2) if (path.branch(Term.eq(v, Term.c(t[k])))) { dst = t[k + 1]; break; }
                                }
                                pc = dst;
                                break;
                            }
                            case IRETURN: case FRETURN: case LRETURN: case DRETURN: {
                                int s = o == IRETURN || o == FRETURN ? sp - 1 : sp - 2;
                                retP = P[s]; retR = R[s];
                                return;
                            }
                            case ARETURN: retR = R[sp - 1]; retP = 0; return;
                            case RETURN: retR = null; return;
                            case GETSTATIC: {
                                FieldRef fr = (FieldRef) c.o[pc];
                                FieldInfo f = fr.f;
                                if (f == null) f = resolveField(fr, true);
                                if (sched != null) point(m, f.isFinal() ? null : f.id());
                                ClassInfo k = f.owner;
                                if (k.initState != 2) { top = sp + 1; ensureInit(k); top = sb + c.maxStack + 1; }
                                if (k.jdk && !f.lifted) liftStatic(k, f);
                                P[sp] = k.sp[f.slot]; R[sp] = k.sr[f.slot];
                                sp += f.size; pc++; break;
                            }
                            case PUTSTATIC: {
                                FieldRef fr = (FieldRef) c.o[pc];
                                FieldInfo f = fr.f;
                                if (f == null) f = resolveField(fr, true);
                                if (sched != null) { point(m, f.isFinal() ? null : f.id()); if (m.owner.repo) wrote(m, f.id(), null); }
                                ClassInfo k = f.owner;
                                if (k.initState != 2) { top = sp + 1; ensureInit(k); top = sb + c.maxStack + 1; }
                                f.lifted = true;
                                sp -= f.size;
                                k.sp[f.slot] = P[sp]; k.sr[f.slot] = R[sp];
                                pc++; break;
                            }
                            case GETFIELD: {
                                FieldRef fr = (FieldRef) c.o[pc];
                                FieldInfo f = fr.f;
                                if (f == null) f = resolveField(fr, false);
                                if (sched != null) point(m, f.isFinal() || shared(R[sp - 1]) == null ? null : f.id());
                                Object x = R[sp - 1];
                                if (x == null) throw npe();
                                if (!(x instanceof Obj)) { if (x instanceof String) { strField((String) x, f, sp - 1); sp += f.size - 1; pc++; break; } throw new Unsupported("getfield on " + x.getClass()); }
                                Obj ob = (Obj) x;
                                if (!ob.filled) fill(ob);
                                else if (ob instanceof NumStr && !((NumStr) ob).materialised) { curPc = pc; Natives.materialise(this, (NumStr) ob); }
                                else if (ob instanceof BigDec || ob instanceof BigInt) throw new Unsupported("field of " + ob.cls + " in " + m);
                                P[sp - 1] = ob.p[f.slot]; R[sp - 1] = ob.r[f.slot];
                                sp += f.size - 1; pc++; break;
                            }
                            case PUTFIELD: {
                                FieldRef fr = (FieldRef) c.o[pc];
                                FieldInfo f = fr.f;
                                if (f == null) f = resolveField(fr, false);
                                if (sched != null) { String w = shared(R[sp - 1 - f.size]); if (w != null && m.owner.repo) w = f.id(); point(m, f.isFinal() ? null : w); if (!f.isView()) wrote(m, w, R[sp - 1 - f.size]); }
                                sp -= f.size;
                                Object x = R[sp - 1];
                                if (x == null) throw npe();
                                if (x instanceof String) { sp--; pc++; break; } // cached hash of a host string
                                Obj ob = (Obj) x;
                                if (!ob.filled) fill(ob);
                                ob.p[f.slot] = P[sp]; ob.r[f.slot] = R[sp];
                                sp--; pc++; break;
                            }
                            case INVOKESTATIC: {
                                CallSite s = (CallSite) c.o[pc];
                                MethodInfo t = s.resolved;
                                if (t == null) {
                                    t = findMethod(cls(s.owner), s.name + s.desc);
                                    if (t == null) throw new Unsupported("no static method " + s.owner + "." + s.name + s.desc);
                                    s.resolved = t;
                                }
                                if (sched != null) callPoint(m, s, sp);
                                if (t.owner.initState != 2) { top = sp + 1; ensureInit(t.owner); top = sb + c.maxStack + 1; }
                                sp -= s.argSlots;
                                curPc = pc;
                                invoke(t, sp);
                                curM = m;
                                if (s.retSize != 0) { P[sp] = retP; R[sp] = retR; sp += s.retSize; }
                                pc++; break;
                            }
                            case INVOKESPECIAL: {
                                CallSite s = (CallSite) c.o[pc];
                                MethodInfo t = s.resolved;
                                if (t == null) {
                                    ClassInfo k = cls(s.owner);
                                    t = findMethod(k, s.name + s.desc);
                                    if (t != null && t.isAbstract()) t = k.findVirtual(s.name + s.desc);
                                    if (t == null) throw new Unsupported("no special method " + s.owner + "." + s.name + s.desc);
                                    s.resolved = t;
                                }
                                if (sched != null) callPoint(m, s, sp);
                                sp -= s.argSlots;
                                if (R[sp] == null) throw npe();
                                curPc = pc;
                                invoke(t, sp);
                                curM = m;
                                if (s.retSize != 0) { P[sp] = retP; R[sp] = retR; sp += s.retSize; }
                                pc++; break;
                            }
                            case INVOKEVIRTUAL: case INVOKEINTERFACE: {
                                CallSite s = (CallSite) c.o[pc];
                                if (sched != null) callPoint(m, s, sp);
                                sp -= s.argSlots;
                                Object x = R[sp];
                                if (x == null) throw npe();
                                ClassInfo k = classOf(x);
                                curPc = pc;
                                if (x instanceof LambdaObj && ((LambdaObj) x).samName.equals(s.name) && !isObjectMethod(s)) {
                                    LambdaObj lo = (LambdaObj) x;
                                    if (lambdaTarget(lo, s)) {
                                        Natives.callLambda(this, lo, s, sp);
                                        curM = m;
                                        if (s.retSize != 0) { P[sp] = retP; R[sp] = retR; sp += s.retSize; }
                                        pc++; break;
                                    }
                                }
                                MethodInfo t;
                                if (s.lastCls == k) t = s.lastTarget;
                                else {
                                    t = resolveVirtual(k, s);
                                    s.lastCls = k; s.lastTarget = t;
                                }
                                invoke(t, sp);
                                curM = m;
                                if (s.retSize != 0) { P[sp] = retP; R[sp] = retR; sp += s.retSize; }
                                pc++; break;
                            }
                            case INVOKEDYNAMIC: {
                                CallSite s = (CallSite) c.o[pc];
                                sp -= s.argSlots;
                                curPc = pc;
                                top = Math.max(top, sp + s.argSlots + 2);
                                Natives.indy(this, m, s, sp);
                                top = sb + c.maxStack + 1;
                                curM = m;
                                P[sp] = retP; R[sp] = retR; sp += s.retSize;
                                pc++; break;
                            }
                            case NEW: {
                                Object q = c.o[pc];
                                ClassInfo k;
                                if (q instanceof String) { k = cls((String) q); c.o[pc] = k; } else k = (ClassInfo) q;
                                if (k.initState != 2) { top = sp + 1; ensureInit(k); top = sb + c.maxStack + 1; }
                                R[sp++] = newObj(k);
                                pc++; break;
                            }
                            case NEWARRAY: {
                                if (R[sp - 1] != null) { P[sp - 1] = path.pick((Term) R[sp - 1]).intValueExact(); }
                                int n = (int) P[sp - 1];
                                if (n < 0) throw exc("java/lang/NegativeArraySizeException", "" + n);
                                R[sp - 1] = new Arr(cls("[" + "????ZCFDBSIJ".charAt(ca[pc])), n);
                                pc++; break;
                            }
                            case ANEWARRAY: {
                                Object q = c.o[pc];
                                ClassInfo k;
                                if (q instanceof String) { String d = (String) q; k = cls(d.charAt(0) == '[' ? "[" + d : "[L" + d + ";"); c.o[pc] = k; } else k = (ClassInfo) q;
                                if (R[sp - 1] != null) { P[sp - 1] = path.pick((Term) R[sp - 1]).intValueExact(); }
                                int n = (int) P[sp - 1];
                                if (n < 0) throw exc("java/lang/NegativeArraySizeException", "" + n);
                                R[sp - 1] = new Arr(k, n);
                                pc++; break;
                            }
                            case MULTIANEWARRAY: {
                                int dims = ca[pc];
                                sp -= dims;
                                int[] ds = new int[dims];
                                for (int k = 0; k < dims; k++) ds[k] = R[sp + k] != null ? path.pick((Term) R[sp + k]).intValueExact() : (int) P[sp + k];
                                R[sp] = multi((String) c.o[pc], ds, 0);
                                sp++; pc++; break;
                            }
                            case ARRAYLENGTH: {
                                Arr a = (Arr) R[sp - 1]; if (a == null) throw npe();
                                P[sp - 1] = a.len; R[sp - 1] = null; pc++; break;
                            }
                            case ATHROW: {
                                Obj x = (Obj) R[sp - 1];
                                if (x == null) throw npe();
                                throw new JavaThrow(x);
                            }
                            case CHECKCAST: {
                                Object x = R[sp - 1];
                                if (x != null) {
                                    Object q = c.o[pc];
                                    ClassInfo k;
                                    if (q instanceof String) { k = cls((String) q); c.o[pc] = k; } else k = (ClassInfo) q;
                                    if (!classOf(x).isSubOf(k)) throw exc("java/lang/ClassCastException", "class " + classOf(x).name.replace('/', '.') + " cannot be cast to class " + k.name.replace('/', '.'));
                                }
                                pc++; break;
                            }
                            case INSTANCEOF: {
                                Object x = R[sp - 1];
                                Object q = c.o[pc];
                                ClassInfo k;
                                if (q instanceof String) { k = cls((String) q); c.o[pc] = k; } else k = (ClassInfo) q;
                                P[sp - 1] = x != null && classOf(x).isSubOf(k) ? 1 : 0;
                                R[sp - 1] = null;
                                pc++; break;
                            }
                            case MONITORENTER: case MONITOREXIT:
                                if (R[--sp] == null) throw npe();
                                if (sched != null && !sched.inB && m.owner.repo) sched.hold += o == MONITORENTER ? 1 : -1;
                                pc++; break;
                            default: throw new Unsupported("opcode " + o + " in " + m);
                        }
                    }
                } catch (JavaThrow t) {
                    curM = m;
                    top = sb + c.maxStack + 1;
                    if (TRACE) System.err.println("  " + t.ex.cls.name + " at " + where(m, pc) + " msg " + (t.ex.r[throwableCI.slot("detailMessage")]));
                    int h = handler(c, pc, t.ex);
                    if (h < 0) throw t;
                    pc = c.hh[h];
                    sp = sb;
                    R[sp++] = t.ex;
                }
            }
        } finally {
            top = oldTop;
            curM = oldM;
            depth--;
        }
    }

    private static boolean isSymbolicish(Object o) {
        if (o instanceof Term || o instanceof SDouble || o instanceof NumStr) return true;
        if (o instanceof BigDec) return ((BigDec) o).u != null;
        if (o instanceof Obj) { Obj b = (Obj) o; if (b.filled) for (Object x : b.r) if (x instanceof Term || x instanceof SDouble) return true; }
        return false;
    }

    private int handler(Code c, int pc, Obj ex) {
        for (int k = 0; k < c.hs.length; k++) {
            if (pc >= c.hs[k] && pc < c.he[k]) {
                if (c.ht[k] == null || ex.cls.isSubOf(cls(c.ht[k]))) return k;
            }
        }
        return -1;
    }

    private static boolean isObjectMethod(CallSite s) {
        return s.owner.equals("java/lang/Object");
    }

    private boolean lambdaTarget(LambdaObj lo, CallSite s) {
        // the functional method (or a bridge of it) is any abstract method of that name with the same argument count
        if (s.desc.equals(lo.samDesc)) return true;
        MethodInfo t = lo.cls.findVirtual(s.name + s.desc);
        return (t == null || t.isAbstract()) && Type.getArgumentTypes(s.desc).length == Type.getArgumentTypes(lo.samDesc).length;
    }

    MethodInfo resolveVirtual(ClassInfo k, CallSite s) {
        MethodInfo t;
        if (k.array) {
            t = objectCI.findVirtual(s.name + s.desc);
            if (t == null) throw new Unsupported("array method " + s.name);
            return t;
        }
        // private methods are not overridden
        ClassInfo ow = s.owner.charAt(0) == '[' ? objectCI : cls(s.owner);
        MethodInfo decl = ow.methods.get(s.name + s.desc);
        if (decl != null && (decl.access & ACC_PRIVATE) != 0) return decl;
        t = k.findVirtual(s.name + s.desc);
        if (t == null) throw new Unsupported("no virtual method " + k + "." + s.name + s.desc);
        return t;
    }

    private void strField(String s, FieldInfo f, int slot) {
        switch (f.name) {
            case "value": R[slot] = bytesOf(s); break;
            case "coder": P[slot] = latin1(s) ? 0 : 1; R[slot] = null; break;
            case "hash": P[slot] = s.hashCode(); R[slot] = null; break;
            case "hashIsZero": P[slot] = s.hashCode() == 0 ? 1 : 0; R[slot] = null; break;
            default: throw new Unsupported("String field " + f.name);
        }
    }

    private FieldInfo resolveField(FieldRef fr, boolean st) {
        ClassInfo c = cls(fr.owner);
        FieldInfo f = c.findField(fr.name, fr.desc);
        if (f == null) throw new Unsupported("no field " + fr.owner + "." + fr.name);
        fr.f = f;
        return f;
    }

    private Arr multi(String desc, int[] ds, int d) {
        ClassInfo c = cls(desc);
        Arr a = new Arr(c, ds[d]);
        if (d + 1 < ds.length) for (int k = 0; k < ds[d]; k++) a.r[k] = multi(desc.substring(1), ds, d + 1);
        return a;
    }

    private void storePrim(Arr a, int idx, int val, int o) {
        if (!a.filled) fill(a);
        if (R[idx] != null) {
            Term t = (Term) R[idx];
            if (!path.branch(Term.and(Term.ge(t, Term.c(0)), Term.lt(t, Term.c(a.len))))) throw exc("java/lang/ArrayIndexOutOfBoundsException", "symbolic index");
            P[idx] = path.pick(t).intValueExact();
            R[idx] = null;
        }
        long i = P[idx];
        if (i < 0 || i >= a.len) throw exc("java/lang/ArrayIndexOutOfBoundsException", "Index " + i + " out of bounds for length " + a.len);
        Object s = R[val];
        long v = P[val];
        char ct = a.cls.comp.name.charAt(0);
        if (s == null) {
            if (o == BASTORE) v = ct == 'Z' ? v & 1 : (byte) v; else if (o == CASTORE) v = (char) v; else if (o == SASTORE) v = (short) v;
            a.p[(int) i] = v;
            if (a.r != null) a.r[(int) i] = null;
        } else {
            if (s instanceof Term) {
                Term t = (Term) s;
                if (o == BASTORE && ct == 'B') t = Term.wrap(t, 8); else if (o == CASTORE) t = Term.mod(t, Term.c(65536)); else if (o == SASTORE) t = Term.wrap(t, 16);
                if (t.isConst()) { a.p[(int) i] = t.k.longValue(); if (a.r != null) a.r[(int) i] = null; return; }
                s = t;
            }
            if (a.r == null) a.r = new Object[a.len];
            a.r[(int) i] = s;
        }
    }

    private void cp(int d, int s) { P[d] = P[s]; R[d] = R[s]; }

    SDouble dbl(int slot) {
        Object s = R[slot];
        if (s != null) return (SDouble) s;
        return Natives.constDouble(Double.longBitsToDouble(P[slot]));
    }

    private void symArith(int o, int sp) {
        Term x = sym(sp - 2), y = sym(sp - 1), r;
        switch (o) {
            case IADD: r = Term.wrap32(Term.add(x, y)); break;
            case ISUB: r = Term.wrap32(Term.sub(x, y)); break;
            case IMUL: r = Term.wrap32(Term.mul(x, y)); break;
            case IDIV: case IREM:
                if (path.branch(Term.eq(y, Term.c(0)))) throw exc("java/lang/ArithmeticException", "/ by zero");
                r = o == IDIV ? Term.wrap32(Term.tdiv(x, y)) : Term.trem(x, y); break;
            case IAND: r = Term.bits(Term.Op.BAND, x, y); break;
            case IOR: r = Term.bits(Term.Op.BOR, x, y); break;
            case IXOR: r = Term.bits(Term.Op.BXOR, x, y); break;
            default: {
                if (!y.isConst()) y = Term.c(path.pick(y));
                int n = y.k.intValue() & 31;
                if (o == ISHL) r = Term.wrap32(Term.mul(x, Term.c(BigInteger.ONE.shiftLeft(n))));
                else if (o == ISHR) r = Term.div(x, Term.c(BigInteger.ONE.shiftLeft(n)));
                else { Term ux = x.lo.signum() >= 0 ? x : Term.mod(x, Term.c(Term.TWO32)); r = n == 0 ? x : Term.div(ux, Term.c(BigInteger.ONE.shiftLeft(n))); }
            }
        }
        setI(sp - 2, r);
    }
    private void symArithL(int o, int sp) {
        Term x = sym(sp - 4), y = sym(sp - 2), r;
        switch (o) {
            case LADD: r = Term.wrap64(Term.add(x, y)); break;
            case LSUB: r = Term.wrap64(Term.sub(x, y)); break;
            case LMUL: r = Term.wrap64(Term.mul(x, y)); break;
            case LDIV: case LREM:
                if (path.branch(Term.eq(y, Term.c(0)))) throw exc("java/lang/ArithmeticException", "/ by zero");
                r = o == LDIV ? Term.wrap64(Term.tdiv(x, y)) : Term.trem(x, y); break;
            case LAND: r = Term.bits(Term.Op.BAND, x, y); break;
            case LOR: r = Term.bits(Term.Op.BOR, x, y); break;
            default: r = Term.bits(Term.Op.BXOR, x, y); break;
        }
        setL(sp - 4, r);
    }
    private void symShiftL(int o, int sp) {
        Term x = sym(sp - 3), y = sym(sp - 1), r;
        if (!y.isConst()) y = Term.c(path.pick(y));
        int n = y.k.intValue() & 63;
        if (o == LSHL) r = Term.wrap64(Term.mul(x, Term.c(BigInteger.ONE.shiftLeft(n))));
        else if (o == LSHR) r = Term.div(x, Term.c(BigInteger.ONE.shiftLeft(n)));
        else { Term ux = x.lo.signum() >= 0 ? x : Term.mod(x, Term.c(Term.TWO64)); r = n == 0 ? x : Term.div(ux, Term.c(BigInteger.ONE.shiftLeft(n))); }
        setL(sp - 3, r);
    }
}
