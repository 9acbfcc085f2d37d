package sx;

import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;
import java.util.*;

/** Class, method and field metadata plus the heap object shapes used by the interpreter. */
final class FieldInfo {
    final ClassInfo owner; final String name, desc; final int access; int slot = -1; boolean lifted;
    final Object constValue; final int size;
    FieldInfo(ClassInfo owner, FieldNode n) {
        this.owner = owner; name = n.name; desc = n.desc; access = n.access; constValue = n.value;
        size = desc.equals("J") || desc.equals("D") ? 2 : 1;
    }
    boolean isStatic() { return (access & Opcodes.ACC_STATIC) != 0; }
    private String id;
    String id() { return id == null ? id = owner.name + "." + name : id; }
    /** a view that a collection makes once, any of several will do */
    boolean isView() { return owner.name.startsWith("java/util/") && (name.equals("keySet") || name.equals("values") || name.equals("entrySet")); }
    boolean isFinal() { return (access & Opcodes.ACC_FINAL) != 0; }
    boolean isRef() { char c = desc.charAt(0); return c == 'L' || c == '['; }
}

interface Nat { boolean call(Vm vm, MethodInfo m, int b); }

final class MethodInfo {
    final ClassInfo owner; final String name, desc; final int access; MethodNode node;
    final Type[] args; final Type ret; final int argSlots; // includes receiver
    final int retSize; final boolean retRef;
    Code code; Nat nat; boolean natLooked; String key;
    boolean seen; boolean symSeen;
    Object hostMethod; // cached reflective member
    MethodInfo(ClassInfo owner, MethodNode n) { this(owner, n.name, n.desc, n.access); node = n; }
    MethodInfo(ClassInfo owner, String name, String desc, int access) {
        this.owner = owner; this.name = name; this.desc = desc; this.access = access;
        args = Type.getArgumentTypes(desc); ret = Type.getReturnType(desc);
        int s = isStatic() ? 0 : 1;
        for (Type t : args) s += t.getSize();
        argSlots = s; retSize = ret.getSize();
        retRef = ret.getSort() == Type.OBJECT || ret.getSort() == Type.ARRAY;
        key = owner.name + "." + name + desc;
    }
    boolean isStatic() { return (access & Opcodes.ACC_STATIC) != 0; }
    boolean isNative() { return (access & Opcodes.ACC_NATIVE) != 0; }
    boolean isAbstract() { return (access & Opcodes.ACC_ABSTRACT) != 0; }
    @Override public String toString() { return key; }
}

final class Code {
    int[] op, a, b; long[] k; Object[] o; int[] line;
    int maxLocals, maxStack;
    int[] hs, he, hh; String[] ht;
    byte[] pat; // symbolic-branch patterns
}

final class CallSite {
    final String owner, name, desc; final boolean itf; final int argSlots, retSize;
    MethodInfo resolved; ClassInfo lastCls; MethodInfo lastTarget; Object indy; boolean ready;
    CallSite(String owner, String name, String desc, boolean itf, boolean isStatic) {
        this.owner = owner; this.name = name; this.desc = desc; this.itf = itf;
        int s = isStatic ? 0 : 1;
        for (Type t : Type.getArgumentTypes(desc)) s += t.getSize();
        argSlots = s; retSize = Type.getReturnType(desc).getSize();
    }
}

final class FieldRef {
    final String owner, name, desc; FieldInfo f;
    FieldRef(String o, String n, String d) { owner = o; name = n; desc = d; }
}

final class ClassInfo {
    final String name; final Vm vm; ClassNode node; ClassInfo sup; ClassInfo[] itfs = {};
    int access; boolean jdk, sticky, array, primitive; final boolean repo;
    ClassInfo comp; // component type of arrays
    final LinkedHashMap<String, MethodInfo> methods = new LinkedHashMap<>();
    final LinkedHashMap<String, FieldInfo> fields = new LinkedHashMap<>();
    FieldInfo[] inst = {}; // all instance fields by slot
    FieldInfo[] stat = {};
    long[] sp; Object[] sr; // statics
    int initState; // 0 no, 1 running, 2 done
    Mirror mirror;
    final HashMap<String, MethodInfo> vcache = new HashMap<>();
    private Set<ClassInfo> supers;
    Class<?> hostClass; boolean hostLooked;
    TreeMap<Long, FieldInfo> byOffset;

    ClassInfo(Vm vm, String name) { this.vm = vm; this.name = name; repo = name.startsWith("com/github/sidhant92/"); }
    boolean isInterface() { return (access & Opcodes.ACC_INTERFACE) != 0; }
    boolean isAbstract() { return (access & Opcodes.ACC_ABSTRACT) != 0; }

    Set<ClassInfo> supers() {
        if (supers == null) {
            LinkedHashSet<ClassInfo> s = new LinkedHashSet<>();
            s.add(this);
            if (sup != null) s.addAll(sup.supers());
            for (ClassInfo i : itfs) s.addAll(i.supers());
            supers = s;
        }
        return supers;
    }
    boolean isSubOf(ClassInfo t) {
        if (this == t) return true;
        if (t.array) {
            if (!array) return false;
            if (comp.primitive || t.comp.primitive) return comp == t.comp;
            return comp.isSubOf(t.comp);
        }
        if (array) return t.name.equals("java/lang/Object") || t.name.equals("java/lang/Cloneable") || t.name.equals("java/io/Serializable");
        return supers().contains(t);
    }
    MethodInfo findVirtual(String nameDesc) {
        MethodInfo m = vcache.get(nameDesc);
        if (m != null) return m;
        for (ClassInfo c = this; c != null; c = c.sup) {
            MethodInfo x = c.methods.get(nameDesc);
            if (x != null && !x.isStatic()) { m = x; break; }
        }
        if (m == null || m.isAbstract()) { // default methods: the most specific one
            MethodInfo best = null;
            for (ClassInfo c : supers()) {
                if (!c.isInterface()) continue;
                MethodInfo x = c.methods.get(nameDesc);
                if (x == null || x.isStatic() || x.isAbstract() || (x.access & Opcodes.ACC_PRIVATE) != 0) continue;
                if (best == null || x.owner.isSubOf(best.owner)) best = x;
            }
            if (best != null) m = best;
            else if (m == null) for (ClassInfo c : supers()) {
                MethodInfo x = c.methods.get(nameDesc);
                if (x != null && !x.isStatic()) { m = x; break; }
            }
        }
        if (m != null) vcache.put(nameDesc, m);
        return m;
    }
    FieldInfo findField(String name, String desc) {
        FieldInfo f = fields.get(name);
        if (f != null && f.desc.equals(desc)) return f;
        for (ClassInfo i : itfs) { f = i.findField(name, desc); if (f != null) return f; }
        return sup == null ? null : sup.findField(name, desc);
    }
    FieldInfo fieldNamed(String name) {
        for (ClassInfo c = this; c != null; c = c.sup) { FieldInfo f = c.fields.get(name); if (f != null) return f; }
        return null;
    }
    int slot(String name) {
        FieldInfo f = fieldNamed(name);
        if (f == null) throw new Unsupported("no field " + this.name + "." + name);
        return f.slot;
    }
    @Override public String toString() { return name; }
}

class Ref {
    ClassInfo cls; int hash;
    int epoch;         // 0 for what existed before concurrent callers started
}

class Obj extends Ref {
    long[] p; Object[] r;
    Object host;       // lifted from this host object (fields filled on first touch when !filled)
    boolean filled = true;
    Obj(ClassInfo c) {
        cls = c;
        int n = c.inst.length;
        p = new long[n]; r = new Object[n];
        epoch = c.vm.epoch;
    }
    @Override public String toString() { return "Obj(" + cls.name + ")"; }
}

final class Arr extends Ref {
    long[] p; Object[] r; final int len; // prim arrays: p values, r symbolic overlay or null; ref arrays: r
    Object host; boolean filled = true;
    Arr(ClassInfo c, int len) {
        cls = c; this.len = len;
        epoch = c.vm.epoch;
        if (c.comp.primitive) p = new long[len]; else r = new Object[len];
    }
    Arr(ClassInfo c, int len, boolean noAlloc) { cls = c; this.len = len; }
    boolean anySym() {
        if (p == null || r == null) return false;
        for (Object x : r) if (x != null) return true;
        return false;
    }
}

final class Mirror extends Obj {
    final ClassInfo of;
    Mirror(ClassInfo cls, ClassInfo of) { super(cls); this.of = of; }
}

/** java.math.BigDecimal: concrete (v) or symbolic unscaled value with concrete scale */
final class BigDec extends Obj {
    java.math.BigDecimal v; Term u; int scale; boolean stripped; int floor = Integer.MIN_VALUE; // stripped: the scale is that without trailing zeros, at least floor
    BigDec(ClassInfo c) { super(c); }
}
final class BigInt extends Obj {
    java.math.BigInteger v; Term t;
    BigInt(ClassInfo c) { super(c); }
}
/** decimal rendering of a symbolic number: u / 10^scale in plain notation */
final class NumStr extends Obj {
    Term u; int scale; boolean dbl; SDouble d;
    boolean materialised;
    NumStr(ClassInfo c) { super(c); }
}
final class SDouble { // n / 2^k, exactly representable
    final Term n; final int k;
    int ulp = Integer.MIN_VALUE;  // when known: |n / 2^k| = m * 2^-ulp with 2^52 <= m <= 2^53
    Term du; int ds;              // when known: the decimal du / 10^ds of at most 15 digits it was rounded from
    SDouble(Term n, int k) { this.n = n; this.k = k; }
}
final class LambdaObj extends Obj {
    String samName, samDesc; Handle impl; CallSite site; long[] cp; Object[] cr; Type instType; ClassInfo itf;
    LambdaObj(ClassInfo c) { super(c); }
}

final class JavaThrow extends RuntimeException {
    final Obj ex;
    JavaThrow(Obj ex) { super(null, null, false, false); this.ex = ex; }
}
class Unsupported extends RuntimeException {
    Unsupported(String m) { super(m); }
}
/** the path ends (assumption false, or a check failed for certain) */
final class PathEnd extends RuntimeException {
    final String why;
    PathEnd(String w) { super(w, null, false, false); why = w; }
}
