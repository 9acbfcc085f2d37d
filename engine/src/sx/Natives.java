package sx;

import org.objectweb.asm.Handle;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.InvokeDynamicInsnNode;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.*;

/** Native methods, library intrinsics and environment models of the interpreter. */
final class Natives implements Opcodes {
    private static final Set<String> VALUE = new HashSet<>(Arrays.asList("java/lang/String", "java/lang/Integer", "java/lang/Long", "java/lang/Short",
        "java/lang/Byte", "java/lang/Character", "java/lang/Boolean", "java/lang/Double", "java/lang/Float", "java/lang/Math", "java/lang/StrictMath",
        "java/math/BigDecimal", "java/math/BigInteger", "java/time/format/DateTimeFormatter", "java/lang/CharacterDataLatin1", "java/math/RoundingMode",
        "java/util/Locale", "java/math/MathContext", "java/time/ZoneId", "java/time/ZoneOffset"));
    private static final Set<String> LIFTABLE = new HashSet<>(Arrays.asList("java.lang.String", "java.lang.CharSequence", "java.math.BigDecimal", "java.math.BigInteger",
        "java.lang.Integer", "java.lang.Long", "java.lang.Boolean", "java.lang.Double", "java.lang.Float", "java.lang.Short", "java.lang.Byte", "java.lang.Character",
        "java.math.RoundingMode", "java.time.LocalDate", "java.time.LocalDateTime", "java.time.format.DateTimeFormatter", "[Ljava.lang.String;", "[B", "[C", "void",
        "[Ljava.math.BigDecimal;", "[Ljava.math.BigInteger;", "java.util.Locale", "java.time.ZoneId", "java.time.ZoneOffset", "java.math.MathContext"));

    static void def(Vm vm, String key, Nat n) { vm.nats.put(key, n); }

    // ------------------------------------------------------------------ running a method of an immutable JDK class on the host
    static Nat hostNat(Vm vm, MethodInfo m) {
        if (!VALUE.contains(m.owner.name)) return null;
        if (m.name.equals("<clinit>")) return null;
        boolean ctor = m.name.equals("<init>");
        if (ctor && m.owner != vm.bigDecCI && m.owner != vm.bigIntCI) return null;
        if (!ctor && (m.access & ACC_PUBLIC) == 0) return null;
        for (Type t : m.args) {
            if (t.getSort() == Type.ARRAY && !t.getDescriptor().equals("[Ljava/lang/Object;") && !t.getDescriptor().equals("[Ljava/lang/CharSequence;")) return null;
            if (t.getSort() == Type.OBJECT && t.getClassName().startsWith("java.util.function")) return null;
        }
        Class<?> h = vm.hostClass(m.owner);
        if (h == null) return null;
        try {
            Class<?>[] pt = new Class<?>[m.args.length];
            for (int k = 0; k < pt.length; k++) pt[k] = vm.hostClass(vm.byDesc(m.args[k].getDescriptor()));
            if (ctor) m.hostMethod = h.getDeclaredConstructor(pt);
            else {
                Method q = h.getDeclaredMethod(m.name, pt);
                Class<?> rt = q.getReturnType();
                if (!rt.isPrimitive() && !LIFTABLE.contains(rt.getName())) return null;
                if (!Modifier.isPublic(h.getModifiers())) q.setAccessible(true);
                m.hostMethod = q;
            }
        } catch (ReflectiveOperationException | RuntimeException e) { return null; }
        return Natives::hostCall;
    }

    private static boolean hostCall(Vm vm, MethodInfo m, int b) {
        int s = b;
        Object recv = null;
        boolean ctor = m.hostMethod instanceof Constructor;
        if (!m.isStatic()) {
            if (!ctor) { recv = vm.lower(vm.R[s]); if (recv == Vm.NOPE) return false; }
            s++;
        }
        Object[] a = new Object[m.args.length];
        for (int k = 0; k < a.length; k++) {
            Type t = m.args[k];
            if (t.getSort() == Type.OBJECT || t.getSort() == Type.ARRAY) {
                a[k] = vm.lower(vm.R[s]);
                if (a[k] == Vm.NOPE) return false;
            } else {
                if (vm.R[s] != null) return false;
                a[k] = hostPrim(t, vm.P[s]);
            }
            s += t.getSize();
        }
        try {
            if (ctor) {
                Object v = ((Constructor<?>) m.hostMethod).newInstance(a);
                if (v instanceof BigDecimal) ((BigDec) vm.R[b]).v = (BigDecimal) v; else ((BigInt) vm.R[b]).v = (BigInteger) v;
                return true;
            }
            Object v = ((Method) m.hostMethod).invoke(recv, a);
            if (m.retRef) {
                if (v == recv && recv != null) vm.ret(vm.R[b]);
                else vm.ret(vm.liftFresh(v));
            } else if (m.retSize > 0) vm.retPrim(Vm.primBits(v));
            return true;
        } catch (InvocationTargetException e) {
            Throwable t = e.getCause();
            throw vm.exc(t.getClass().getName().replace('.', '/'), t.getMessage());
        } catch (ReflectiveOperationException | IllegalArgumentException e) { return false; }
    }
    static Object hostPrim(Type t, long v) {
        switch (t.getSort()) {
            case Type.INT: return (int) v; case Type.LONG: return v; case Type.BOOLEAN: return v != 0; case Type.BYTE: return (byte) v;
            case Type.CHAR: return (char) v; case Type.SHORT: return (short) v; case Type.FLOAT: return Float.intBitsToFloat((int) v);
            default: return Double.longBitsToDouble(v);
        }
    }

    // ------------------------------------------------------------------ doubles
    static SDouble constDouble(double d) {
        if (d == 0) return new SDouble(Term.c(0), 0);
        if (Double.isNaN(d) || Double.isInfinite(d)) throw new Unsupported("nan/inf with symbolic double");
        BigDecimal e = new BigDecimal(d);
        int k = Math.max(0, e.scale()); // a dyadic's scale is its number of binary places
        return new SDouble(Term.c(e.multiply(new BigDecimal(BigInteger.ONE.shiftLeft(k))).toBigIntegerExact()), k);
    }
    static Term scaleD(SDouble d, int k) { return Term.mul(d.n, Term.c(BigInteger.ONE.shiftLeft(k - d.k))); }
    private static final BigInteger P53 = BigInteger.ONE.shiftLeft(53);
    static SDouble dArith(Vm vm, int op, SDouble x, SDouble y) {
        int k = Math.max(x.k, y.k);
        switch (op) {
            case DADD: return rounded(vm, Term.add(scaleD(x, k), scaleD(y, k)), k);
            case DSUB: return rounded(vm, Term.sub(scaleD(x, k), scaleD(y, k)), k);
            case DMUL: return rounded(vm, Term.mul(x.n, y.n), x.k + y.k);
            case DREM:
                if (vm.path.branch(Term.eq(y.n, Term.c(0)))) throw new Unsupported("NaN");
                return new SDouble(Term.trem(scaleD(x, k), scaleD(y, k)), k);
            default: {
                if (vm.path.branch(Term.eq(y.n, Term.c(0)))) throw new Unsupported("division of a double by zero");
                Term n = Term.mul(x.n, Term.c(BigInteger.ONE.shiftLeft(y.k))), d = Term.mul(y.n, Term.c(BigInteger.ONE.shiftLeft(x.k)));
                if (d.lo.signum() <= 0 && (d.hi.signum() < 0 || vm.path.branch(Term.lt(d, Term.c(0))))) { n = Term.neg(n); d = Term.neg(d); }
                return roundRat(vm, n, Term.clampCopy(d, BigInteger.ONE, d.hi.max(BigInteger.ONE)));
            }
        }
    }
    /** the double nearest to n / 2^k */
    private static SDouble rounded(Vm vm, Term n, int k) {
        if (n.lo.abs().max(n.hi.abs()).compareTo(P53) <= 0) return new SDouble(n, k);
        if (vm.path.branch(inRange(n, P53.negate(), P53))) return new SDouble(Term.clampCopy(n, P53.negate(), P53), k);
        return roundRat(vm, n, Term.c(BigInteger.ONE.shiftLeft(k)));
    }
    /** the double nearest to n / d, d positive; ties to even; one path per binary exponent */
    static SDouble roundRat(Vm vm, Term n, Term d) {
        Path p = vm.path;
        if (n.isConst() && n.k.signum() == 0 || p.branch(Term.eq(n, Term.c(0)))) return new SDouble(Term.c(0), 0);
        boolean neg = n.hi.signum() <= 0 || n.lo.signum() < 0 && p.branch(Term.lt(n, Term.c(0)));
        Term a = neg ? Term.neg(n) : n;
        a = Term.clampCopy(a, BigInteger.ONE, a.hi.max(BigInteger.ONE));
        int lo = a.lo.bitLength() - 1 - d.hi.bitLength(), hi = a.hi.bitLength() - d.lo.bitLength() + 1; // 2^lo <= a/d < 2^hi
        while (hi - lo > 1) {
            int mid = (lo + hi) >> 1;
            Term l = mid >= 0 ? a : Term.mul(a, Term.c(BigInteger.ONE.shiftLeft(-mid))), r = mid >= 0 ? Term.mul(d, Term.c(BigInteger.ONE.shiftLeft(mid))) : d;
            if (p.branch(Term.lt(l, r))) hi = mid; else lo = mid;
        }
        if (lo < -1000 || lo > 1000) throw new Unsupported("double out of the normal range");
        int sh = 52 - lo;
        Term num = sh >= 0 ? Term.mul(a, Term.c(BigInteger.ONE.shiftLeft(sh))) : a, den = sh >= 0 ? d : Term.mul(d, Term.c(BigInteger.ONE.shiftLeft(-sh)));
        Term m = Term.clampCopy(divRound(vm, num, den, RoundingMode.HALF_EVEN), BigInteger.ONE.shiftLeft(52), P53);
        if (sh < 0) m = Term.mul(m, Term.c(BigInteger.ONE.shiftLeft(-sh)));
        SDouble r = new SDouble(neg ? Term.neg(m) : m, Math.max(sh, 0));
        r.ulp = sh;
        return r;
    }
    /** the double nearest to the decimal u / 10^s */
    static SDouble ofDecimal(Vm vm, Term u, int s) {
        BigInteger lim = BigInteger.TEN.pow(15);
        if (s <= 0) u = Term.mul(u, pow10(-s));
        int sc = Math.max(s, 0);
        SDouble r = sc == 0 ? rounded(vm, u, 0) : roundRat(vm, u, pow10(sc));
        if (sc > 0 && (u.lo.abs().max(u.hi.abs()).compareTo(lim) < 0 || vm.path.branch(Term.lt(abs(u), Term.c(lim))))) { r.du = u; r.ds = sc; }
        return r;
    }
    private static boolean exactTo(SDouble d, BigInteger bound) { return d.n.lo.abs().max(d.n.hi.abs()).compareTo(bound) <= 0; }
    /** {u, s}: the shortest decimal u / 10^s that rounds to the double, as Double.toString chooses it */
    private static Object[] shortest(Vm vm, SDouble d) {
        if (d.du != null) return new Object[]{d.du, d.ds};
        Path p = vm.path;
        BigInteger five = BigInteger.valueOf(5).pow(d.k), lim = BigInteger.TEN.pow(15);
        if (exactTo(d, lim.divide(five).subtract(BigInteger.ONE)) || p.branch(Term.lt(Term.mul(abs(d.n), Term.c(five)), Term.c(lim)))) return new Object[]{Term.mul(d.n, Term.c(five)), d.k};
        SDouble r = d.ulp != Integer.MIN_VALUE ? d : roundRat(vm, d.n, Term.c(BigInteger.ONE.shiftLeft(d.k)));
        if (r.n.isConst() && r.n.k.signum() == 0) return new Object[]{Term.c(0), 1};
        boolean neg = r.n.hi.signum() <= 0 || r.n.lo.signum() < 0 && p.branch(Term.lt(r.n, Term.c(0)));
        Term a = neg ? Term.neg(r.n) : r.n; // value a / 2^k, half an ulp is 2^-(ulp+1)
        BigInteger pw = BigInteger.ONE.shiftLeft(r.k), unit = r.ulp >= 0 ? BigInteger.ONE : BigInteger.ONE.shiftLeft(-r.ulp);
        Term mant = Term.div(a, Term.c(unit));
        if (p.branch(Term.or(Term.eq(mant, Term.c(BigInteger.ONE.shiftLeft(52))), Term.eq(mant, Term.c(P53))))) throw new Unsupported("rendering of a power of two");
        boolean even = p.branch(Term.eq(Term.mod(mant, Term.c(2)), Term.c(0)));
        BigDecimal low = r.ulp >= 0 ? new BigDecimal(BigInteger.ONE.shiftLeft(52)).divide(new BigDecimal(BigInteger.ONE.shiftLeft(r.ulp))) : new BigDecimal(BigInteger.ONE.shiftLeft(52).multiply(unit));
        int E = low.precision() - low.scale() - 1; // 10^E <= low < 10^(E+1), the value is below 2 * low
        Term next = E + 1 >= 0 ? Term.c(BigInteger.TEN.pow(E + 1).multiply(pw)) : Term.c(pw);
        if (!p.branch(Term.lt(E + 1 >= 0 ? a : Term.mul(a, pow10(-E - 1)), next))) E++;
        int lo = 1, hi = 17; // 17 digits always do
        while (hi - lo > 1) { // lo never does or is 1
            int mid = (lo + hi) >> 1;
            if (p.branch(fits(vm, a, pw, unit, mid - 1 - E, even))) hi = mid; else lo = mid;
        }
        int s = hi - 1 - E;
        Term c = nearest(vm, a, pw, s);
        if (s < 0) { c = Term.mul(c, pow10(-s)); s = 0; }
        return new Object[]{neg ? Term.neg(c) : c, s};
    }
    /** a/pw * 10^s rounded to an integer */
    private static Term nearest(Vm vm, Term a, BigInteger pw, int s) {
        return s >= 0 ? divRound(vm, Term.mul(a, pow10(s)), Term.c(pw), RoundingMode.HALF_EVEN) : divRound(vm, a, Term.c(pw.multiply(BigInteger.TEN.pow(-s))), RoundingMode.HALF_EVEN);
    }
    private static Term fits(Vm vm, Term a, BigInteger pw, BigInteger unit, int s, boolean even) {
        Term c = nearest(vm, a, pw, s);
        // |c / 10^s - a / pw| against unit / pw / 2
        Term l, r;
        if (s >= 0) { l = Term.sub(Term.mul(c, Term.c(pw.shiftLeft(1))), Term.mul(a, Term.c(BigInteger.TEN.pow(s).shiftLeft(1)))); r = Term.c(unit.multiply(BigInteger.TEN.pow(s))); }
        else { l = Term.sub(Term.mul(c, Term.c(pw.multiply(BigInteger.TEN.pow(-s)).shiftLeft(1))), Term.mul(a, Term.c(2))); r = Term.c(unit); }
        return even ? Term.and(Term.le(l, r), Term.ge(l, Term.neg(r))) : Term.and(Term.lt(l, r), Term.gt(l, Term.neg(r)));
    }
    /** where |d| is in [10^-3, 10^7) or zero Double.toString is not scientific */
    private static Term plainRange(SDouble d) {
        Term a = abs(d.n);
        return Term.or(Term.eq(a, Term.c(0)), Term.and(Term.lt(a, Term.c(BigInteger.TEN.pow(7).shiftLeft(d.k))), Term.ge(Term.mul(a, Term.c(1000)), Term.c(BigInteger.ONE.shiftLeft(d.k)))));
    }
    /** new BigDecimal(Double.toString(d)) */
    static BigDec viaText(Vm vm, SDouble d) {
        boolean plain = vm.path.branch(plainRange(d));
        Object[] r = shortest(vm, d);
        Term u = (Term) r[0]; int s = (Integer) r[1], floor = 1;
        if (!plain) { // one digit at least after the point of d.ddd * 10^E
            Term a = abs(u);
            int max = a.hi.toString().length(), dg = 1;
            while (dg < max && !vm.path.branch(Term.lt(a, pow10(dg)))) dg++;
            floor = 1 - (dg - 1 - s);
        }
        return loose(vm, u, s, floor);
    }
    /** u / 10^s with the fewest fraction digits that represent it, but at least floor of them */
    static BigDec loose(Vm vm, Term u, int s, int floor) {
        BigDec b = new BigDec(vm.bigDecCI);
        loose(b, u, s, floor);
        return b;
    }
    static void loose(BigDec b, Term u, int s, int floor) {
        if (u.isConst()) {
            BigDecimal v = new BigDecimal(u.k, s).stripTrailingZeros();
            b.v = v.scale() < floor ? v.setScale(floor) : v;
            return;
        }
        b.u = u; b.scale = s; b.stripped = true; b.floor = floor;
    }
    static Term looseScale(BigDec x) {
        Term t = Term.stripScale(x.u, x.scale);
        return Term.ite(Term.ge(t, Term.c(x.floor)), t, Term.c(x.floor));
    }

    // ------------------------------------------------------------------ rounding contexts
    static MathContext mc(Vm vm, Object o) {
        if (o == null) throw vm.npe();
        Object h = vm.lower(o);
        if (h instanceof MathContext) return (MathContext) h;
        Obj x = (Obj) o;
        if (!x.filled) vm.fill(x);
        int p = x.cls.slot("precision");
        if (x.r[p] != null) throw new Unsupported("rounding context");
        return new MathContext((int) x.p[p], mode(vm, x.r[x.cls.slot("roundingMode")]));
    }
    static BigDec round(Vm vm, Term u, int s, MathContext mc) {
        int p = mc.getPrecision();
        Term a = abs(u);
        if (p == 0 || a.hi.compareTo(BigInteger.TEN.pow(p)) < 0) return mk(vm, u, s);
        int max = a.hi.toString().length(), d = p;
        while (d < max && !vm.path.branch(Term.lt(a, pow10(d)))) d++;
        if (d == p) return mk(vm, Term.clampCopy(u, BigInteger.TEN.pow(p).negate(), BigInteger.TEN.pow(p)), s);
        Term q = divRound(vm, u, pow10(d - p), mc.getRoundingMode());
        s -= d - p;
        if (vm.path.branch(Term.eq(abs(q), pow10(p)))) { q = Term.div(q, Term.c(10)); s--; }
        return mk(vm, q, s);
    }
    static BigDec divideMc(Vm vm, BigDec x, BigDec y, MathContext mc) {
        int p = mc.getPrecision();
        int pref = scl(vm, x) - scl(vm, y);
        if (p == 0) return divideExact(vm, x, y);
        Term n = uns(x), d = uns(y);
        if (vm.path.branch(Term.eq(d, Term.c(0)))) throw vm.exc("java/lang/ArithmeticException", "Division by zero");
        if (vm.path.branch(Term.eq(n, Term.c(0)))) return mk(vm, Term.c(0), pref);
        Term an = abs(n), ad = abs(d);
        an = Term.clampCopy(an, BigInteger.ONE, an.hi); ad = Term.clampCopy(ad, BigInteger.ONE, ad.hi);
        // e with 10^(p-1) <= n/d * 10^e < 10^p
        int lo = p - 1 - an.hi.toString().length(), hi = p + ad.hi.toString().length();
        while (hi - lo > 1) {
            int mid = (lo + hi) >> 1;
            Term l = mid >= 0 ? Term.mul(an, pow10(mid)) : an, r = Term.mul(ad, mid >= 0 ? pow10(p) : pow10(p - mid));
            if (vm.path.branch(Term.lt(l, r))) lo = mid; else hi = mid;
        }
        Term q = lo >= 0 ? divRound(vm, Term.mul(n, pow10(lo)), d, mc.getRoundingMode()) : divRound(vm, n, Term.mul(d, pow10(-lo)), mc.getRoundingMode());
        return loose(vm, q, lo + pref, Math.min(pref, lo + pref));
    }
    /** divide(BigDecimal): exact or ArithmeticException */
    static BigDec divideExact(Vm vm, BigDec x, BigDec y) {
        int pref = scl(vm, x) - scl(vm, y);
        Term n = uns(x), d = uns(y);
        if (vm.path.branch(Term.eq(d, Term.c(0)))) throw vm.exc("java/lang/ArithmeticException", "Division by zero");
        if (!d.isConst()) throw new Unsupported("exact division by a symbolic decimal");
        BigInteger r = d.k.abs(), five = BigInteger.valueOf(5);
        int two = r.getLowestSetBit(), fv = 0;
        r = r.shiftRight(two);
        while (r.mod(five).signum() == 0) { r = r.divide(five); fv++; }
        if (!r.equals(BigInteger.ONE) && !vm.path.branch(Term.eq(Term.mod(n, Term.c(r)), Term.c(0)))) throw vm.exc("java/lang/ArithmeticException", "Non-terminating decimal expansion; no exact representable decimal result.");
        int m = Math.max(two, fv);
        return loose(vm, Term.tdiv(Term.mul(n, pow10(m)), d), pref + m, pref);
    }

    static void l2d(Vm vm, int slot) {
        Term t = (Term) vm.R[slot];
        BigInteger m = P53;
        if (t.lo.compareTo(m.negate()) < 0 || t.hi.compareTo(m) > 0) {
            Term in = Term.and(Term.ge(t, Term.c(m.negate())), Term.le(t, Term.c(m)));
            if (!vm.path.branch(in)) { // outside the exact range: one concrete value per path would be needed
                roundL2d(vm, slot, t);
                return;
            }
            t = Term.clampCopy(t, m.negate(), m);
        }
        vm.R[slot] = new SDouble(t, 0);
    }
    /** |t| in (2^53, 2^63]: round to nearest even at the right power of two */
    private static void roundL2d(Vm vm, int slot, Term t) {
        Term a = Term.ite(Term.ge(t, Term.c(0)), t, Term.neg(t));
        int e = 1;
        for (; e < 11; e++) if (vm.path.branch(Term.lt(a, Term.c(P53.shiftLeft(e))))) break;
        Term unit = Term.c(BigInteger.ONE.shiftLeft(e));
        Term q = Term.div(a, unit), r = Term.mod(a, unit);
        Term half = Term.c(BigInteger.ONE.shiftLeft(e - 1));
        Term up = Term.or(Term.gt(r, half), Term.and(Term.eq(r, half), Term.eq(Term.mod(q, Term.c(2)), Term.c(1))));
        Term v = Term.mul(Term.add(q, Term.ofBool(up)), unit);
        vm.R[slot] = new SDouble(Term.ite(Term.ge(t, Term.c(0)), v, Term.neg(v)), 0);
    }
    static Term d2x(SDouble d, BigInteger min, BigInteger max) {
        Term t = Term.tdiv(d.n, Term.c(BigInteger.ONE.shiftLeft(d.k)));
        if (t.lo.compareTo(min) >= 0 && t.hi.compareTo(max) <= 0) return t;
        return Term.clampCopy(Term.ite(Term.lt(t, Term.c(min)), Term.c(min), Term.ite(Term.gt(t, Term.c(max)), Term.c(max), t)), min, max);
    }
    static NumStr doubleString(Vm vm, SDouble d) {
        BigDec b = viaText(vm, d);
        if (b.v == null) norm(vm, b);
        Term u = uns(b); int s = b.v != null ? b.v.scale() : b.scale;
        if (s < 1 || s > 9 || !vm.path.branch(plainRange(d))) throw new Unsupported("scientific rendering of a symbolic double");
        return numStr(vm, u, s);
    }
    static NumStr numStr(Vm vm, Term u, int scale) {
        NumStr s = new NumStr(vm.stringCI);
        s.u = u; s.scale = scale;
        return s;
    }

    static void materialise(Vm vm, NumStr s) {
        if (s.materialised) return;
        Path p = vm.path;
        boolean neg = p.branch(Term.lt(s.u, Term.c(0)));
        Term a = neg ? Term.neg(s.u) : s.u;
        int min = s.scale + 1, max = a.hi.abs().max(a.lo.abs()).toString().length();
        int d = min;
        while (d < max && !p.branch(Term.lt(a, Term.c(BigInteger.TEN.pow(d))))) d++;
        int len = (neg ? 1 : 0) + d + (s.scale > 0 ? 1 : 0);
        Arr out = new Arr(vm.cls("[B"), len);
        out.r = new Object[len];
        int w = 0;
        if (neg) out.p[w++] = '-';
        for (int i = 0; i < d; i++) {
            if (s.scale > 0 && i == d - s.scale) out.p[w++] = '.';
            Term dig = Term.mod(Term.div(a, Term.c(BigInteger.TEN.pow(d - 1 - i))), Term.c(10));
            if (i == 0) dig = Term.div(a, Term.c(BigInteger.TEN.pow(d - 1)));
            Term ch = Term.clampCopy(Term.add(dig, Term.c('0')), BigInteger.valueOf('0'), BigInteger.valueOf('9'));
            if (ch.isConst()) out.p[w++] = ch.k.longValue(); else out.r[w++] = ch;
        }
        s.materialised = true;
        s.r[vm.slotValue()] = out;
    }

    // ------------------------------------------------------------------ strings
    /** equality of two strings as a term; never forks unless a rendering must be spelled out */
    static Term strEq(Vm vm, Object x, Object y) {
        if (x == y) return Term.TRUE;
        if (x == null || y == null) return Term.FALSE;
        if (!(x instanceof String) && ((Obj) x).cls != vm.stringCI || !(y instanceof String) && ((Obj) y).cls != vm.stringCI) return Term.FALSE;
        String hx = vm.hostString(x), hy = vm.hostString(y);
        if (hx != null && hy != null) return Term.bool(hx.equals(hy));
        if (y instanceof NumStr && !(x instanceof NumStr)) { Object t = x; x = y; y = t; String h = hx; hx = hy; hy = h; }
        if (x instanceof NumStr && !((NumStr) x).materialised) {
            NumStr n = (NumStr) x;
            if (hy != null) {
                BigDecimal d;
                try { d = new BigDecimal(hy); } catch (NumberFormatException e) { return Term.FALSE; }
                if (d.scale() != n.scale || !d.toPlainString().equals(hy)) return Term.FALSE;
                return Term.eq(n.u, Term.c(d.unscaledValue()));
            }
            if (y instanceof NumStr && !((NumStr) y).materialised) {
                NumStr o = (NumStr) y;
                if (o.scale == n.scale) return Term.eq(n.u, o.u);
                return Term.FALSE;
            }
        }
        Term[] a = chars(vm, x), b = chars(vm, y);
        if (a.length != b.length) return Term.FALSE;
        Term r = Term.TRUE;
        for (int k = 0; k < a.length; k++) { r = Term.and(r, Term.eq(a[k], b[k])); if (r.isFalse()) return r; }
        return r;
    }
    /** the characters of a string, each a term in 0..65535 */
    static Term[] chars(Vm vm, Object s) {
        Arr a = vm.bytesOf(s);
        boolean l1 = vm.isLatin1(s);
        Term[] r = new Term[l1 ? a.len : a.len / 2];
        for (int k = 0; k < r.length; k++)
            r[k] = l1 ? Vm.byteTerm(a, k) : Term.add(Vm.byteTerm(a, 2 * k), Term.mul(Vm.byteTerm(a, 2 * k + 1), Term.c(256)));
        return r;
    }
    /** a number is not written with characters beyond Latin-1, unless they are digits of another script */
    static void noWideDigits(Vm vm, Object s) {
        if (vm.isLatin1(s)) return;
        for (Term t : chars(vm, s)) {
            if (t.lo.intValue() <= 255) continue;
            boolean digit = false;
            for (int c = t.lo.intValue(); c <= t.hi.intValue() && !digit; c++) digit = Character.isDigit(c) || Character.isSurrogate((char) c);
            if (!digit) throw vm.exc("java/lang/NumberFormatException", "<symbolic>");
        }
        throw new Unsupported("digits of another script");
    }
    private static void putByte(Arr a, int k, Term t) {
        t = Term.wrap(t, 8);
        if (t.isConst()) a.p[k] = t.k.longValue(); else a.r[k] = t;
    }
    /** a string of these characters; a wider string needs a character that is certainly beyond Latin-1 */
    static Object ofChars(Vm vm, Term[] cs) {
        if (cs.length == 0) return "";
        boolean l1 = true, wide = false;
        for (Term t : cs) { if (t.hi.intValue() > 255) l1 = false; if (t.lo.intValue() > 255) wide = true; }
        if (!l1 && !wide) throw new Unsupported("a text that may or may not be Latin-1");
        Arr a = new Arr(vm.cls("[B"), l1 ? cs.length : 2 * cs.length);
        a.r = new Object[a.len];
        for (int k = 0; k < cs.length; k++) {
            if (l1) putByte(a, k, cs[k]);
            else { putByte(a, 2 * k, Term.mod(cs[k], Term.c(256))); putByte(a, 2 * k + 1, Term.div(cs[k], Term.c(256))); }
        }
        Obj o = vm.symString(a);
        if (!l1) o.p[vm.stringCI.slot("coder")] = 1;
        return o;
    }
    static boolean lazy(Object s) { return s instanceof NumStr && !((NumStr) s).materialised; }
    static Term strCmp(Vm vm, Object x, Object y) {
        Term[] a = chars(vm, x), b = chars(vm, y);
        int n = Math.min(a.length, b.length);
        Term r = Term.c(a.length - b.length);
        for (int k = n - 1; k >= 0; k--) {
            Term p = a[k], q = b[k];
            r = Term.ite(Term.eq(p, q), r, Term.sub(p, q));
        }
        return r;
    }

    /** a Character.f(char) style function on a symbolic argument as a chain over its interval */
    static Term mapChar(Vm vm, Term t, java.util.function.IntUnaryOperator f, boolean offset) {
        int lo = t.lo.intValueExact(), hi = t.hi.intValueExact();
        if (hi - lo > 70000) throw new Unsupported("character function on a wide range");
        Term acc = null;
        int runs = 0;
        for (int k = lo; k <= hi; ) {
            int v = f.applyAsInt(k) - (offset ? k : 0), e = k;
            while (e + 1 <= hi && f.applyAsInt(e + 1) - (offset ? e + 1 : 0) == v) e++;
            Term val = offset ? Term.add(t, Term.c(v)) : Term.c(v);
            acc = acc == null ? val : Term.ite(Term.ge(t, Term.c(k)), val, acc);
            if (++runs > 400) throw new Unsupported("character function with too many ranges");
            k = e + 1;
        }
        return acc;
    }

    // ------------------------------------------------------------------ BigDecimal
    static boolean isSym(BigDec b) { return b.v == null; }
    static Term uns(BigDec b) { return b.v != null ? Term.c(b.v.unscaledValue()) : b.u; }
    static int scl(Vm vm, BigDec b) {
        if (b.v != null) return b.v.scale();
        if (b.stripped) norm(vm, b);
        return b.scale;
    }
    /** decide the actual scale of a stripTrailingZeros() result */
    static void norm(Vm vm, BigDec b) {
        if (!b.stripped) return;
        int s = vm.path.pick(looseScale(b)).intValueExact();
        if (s < b.scale) b.u = Term.tdiv(b.u, Term.c(BigInteger.TEN.pow(b.scale - s)));
        else if (s > b.scale) b.u = Term.mul(b.u, Term.c(BigInteger.TEN.pow(s - b.scale)));
        b.scale = s;
        b.stripped = false;
    }
    static BigDec mk(Vm vm, Term u, int scale) {
        BigDec b = new BigDec(vm.bigDecCI);
        if (u.isConst()) b.v = new BigDecimal(u.k, scale); else { b.u = u; b.scale = scale; }
        return b;
    }
    static void set(BigDec b, Term u, int scale) {
        if (u.isConst()) b.v = new BigDecimal(u.k, scale); else { b.u = u; b.scale = scale; }
    }
    static Term pow10(int n) { return Term.c(BigInteger.TEN.pow(n)); }
    /** numeric comparison; trailing zeros do not matter */
    static Term bdCompare(BigDec x, BigDec y) {
        int sx = x.v != null ? x.v.scale() : x.scale, sy = y.v != null ? y.v.scale() : y.scale, s = Math.max(sx, sy);
        return Term.compare(Term.mul(uns(x), pow10(s - sx)), Term.mul(uns(y), pow10(s - sy)));
    }
    static Term abs(Term t) { return t.lo.signum() >= 0 ? t : t.hi.signum() <= 0 ? Term.neg(t) : Term.clampCopy(Term.ite(Term.ge(t, Term.c(0)), t, Term.neg(t)), BigInteger.ZERO, t.lo.abs().max(t.hi.abs())); }
    /** N/D rounded to an integer */
    static Term divRound(Vm vm, Term n, Term d, RoundingMode mode) {
        if (d.isConst() && d.k.signum() == 0 || vm.path.branch(Term.eq(d, Term.c(0)))) throw vm.exc("java/lang/ArithmeticException", "/ by zero");
        Term an = abs(n), ad = abs(d);
        if (!ad.isConst() && ad.lo.signum() == 0) ad = Term.ite(Term.eq(d, Term.c(0)), Term.c(1), ad);
        Term q = Term.div(an, ad), r = Term.mod(an, ad);
        Term neg = Term.xor(Term.lt(n, Term.c(0)), Term.lt(d, Term.c(0)));
        Term inc;
        Term rem = Term.not(Term.eq(r, Term.c(0)));
        Term twice = Term.mul(r, Term.c(2));
        switch (mode) {
            case DOWN: inc = Term.FALSE; break;
            case UP: inc = rem; break;
            case FLOOR: inc = Term.and(rem, neg); break;
            case CEILING: inc = Term.and(rem, Term.not(neg)); break;
            case HALF_UP: inc = Term.ge(twice, ad); break;
            case HALF_DOWN: inc = Term.gt(twice, ad); break;
            case HALF_EVEN: inc = Term.or(Term.gt(twice, ad), Term.and(Term.eq(twice, ad), Term.eq(Term.mod(q, Term.c(2)), Term.c(1)))); break;
            default:
                if (vm.path.branch(rem)) throw vm.exc("java/lang/ArithmeticException", "Rounding necessary");
                inc = Term.FALSE;
        }
        if (!inc.isFalse()) q = Term.add(q, Term.ofBool(inc));
        return Term.ite(neg, Term.neg(q), q);
    }
    static RoundingMode mode(Vm vm, Object o) {
        Object h = vm.lower(o);
        if (!(h instanceof RoundingMode)) throw new Unsupported("rounding mode");
        return (RoundingMode) h;
    }
    static BigDec bdDivide(Vm vm, BigDec x, BigDec y, int scale, RoundingMode m) {
        int e = scale - scl(vm, x) + scl(vm, y);
        Term n = uns(x), d = uns(y);
        if (e >= 0) n = Term.mul(n, pow10(e)); else d = Term.mul(d, pow10(-e));
        return mk(vm, divRound(vm, n, d, m), scale);
    }
    static BigDec setScale(Vm vm, BigDec x, int s, RoundingMode m) {
        int xs = scl(vm, x);
        if (s >= xs) return mk(vm, Term.mul(uns(x), pow10(s - xs)), s);
        return mk(vm, divRound(vm, uns(x), pow10(xs - s), m), s);
    }
    /** integer part (truncated) */
    static Term bdInt(BigDec x) {
        int s = x.v != null ? x.v.scale() : x.scale;
        Term u = uns(x);
        return s <= 0 ? Term.mul(u, pow10(-s)) : Term.tdiv(u, pow10(s));
    }
    static Term bdIsInt(BigDec x) {
        int s = x.v != null ? x.v.scale() : x.scale;
        if (s <= 0) return Term.TRUE;
        Term u = uns(x);
        return Term.eq(Term.mod(u, pow10(s)), Term.c(0));
    }
    static Term inRange(Term t, BigInteger lo, BigInteger hi) { return Term.and(Term.ge(t, Term.c(lo)), Term.le(t, Term.c(hi))); }

    static void copy(BigDec to, BigDec from) { to.v = from.v; to.u = from.u; to.scale = from.scale; to.stripped = from.stripped; to.floor = from.floor; }
    static void retD(Vm v, SDouble d) {
        if (d.n.isConst()) {
            v.retR = null;
            v.retP = Double.doubleToRawLongBits(new BigDecimal(d.n.k).divide(new BigDecimal(BigInteger.ONE.shiftLeft(d.k))).doubleValue());
        } else { v.retR = d; v.retP = 0; }
    }
    private static BigDec bd(Vm vm, int slot) {
        Object o = vm.R[slot];
        if (o == null) throw vm.npe();
        return (BigDec) o;
    }
    private static void bdDef(Vm vm, String sig, Nat n) {
        def(vm, "java/math/BigDecimal." + sig, (v, m, b) -> hostBd(v, m, b) || n.call(v, m, b));
    }
    private static boolean hostBd(Vm vm, MethodInfo m, int b) {
        if (m.hostMethod == null) hostNat(vm, m);
        return m.hostMethod != null && hostCall(vm, m, b);
    }
    private static int cint(Vm vm, int slot) {
        if (vm.R[slot] != null) return vm.path.pick((Term) vm.R[slot]).intValueExact();
        return (int) vm.P[slot];
    }

    static void installBig(Vm vm) {
        final String BD = "Ljava/math/BigDecimal;";
        bdDef(vm, "<init>(I)V", (v, m, b) -> { set((BigDec) v.R[b], v.argT(b + 1), 0); return true; });
        bdDef(vm, "<init>(J)V", (v, m, b) -> { set((BigDec) v.R[b], v.argT(b + 1), 0); return true; });
        bdDef(vm, "<init>(Ljava/math/BigInteger;)V", (v, m, b) -> { set((BigDec) v.R[b], ((BigInt) v.R[b + 1]).t, 0); return true; });
        bdDef(vm, "<init>(Ljava/math/BigInteger;I)V", (v, m, b) -> { set((BigDec) v.R[b], ((BigInt) v.R[b + 1]).t, cint(v, b + 2)); return true; });
        bdDef(vm, "<init>(D)V", (v, m, b) -> {
            SDouble d = v.dbl(b + 1);
            loose((BigDec) v.R[b], Term.mul(d.n, Term.c(BigInteger.valueOf(5).pow(d.k))), d.k, 0);
            return true;
        });
        bdDef(vm, "<init>(Ljava/lang/String;)V", (v, m, b) -> {
            if (v.R[b + 1] == null) throw v.npe();
            Object[] r = parseDecimal(v, v.R[b + 1]);
            set((BigDec) v.R[b], (Term) r[0], (Integer) r[1]);
            return true;
        });
        bdDef(vm, "valueOf(J)" + BD, (v, m, b) -> { v.ret(mk(v, v.argT(b), 0)); return true; });
        bdDef(vm, "valueOf(JI)" + BD, (v, m, b) -> { v.ret(mk(v, v.argT(b), cint(v, b + 2))); return true; });
        bdDef(vm, "valueOf(D)" + BD, (v, m, b) -> { v.ret(viaText(v, v.dbl(b))); return true; });
        bdDef(vm, "add(" + BD + ")" + BD, (v, m, b) -> {
            BigDec x = bd(v, b), y = bd(v, b + 1);
            int sx = scl(v, x), sy = scl(v, y), s = Math.max(sx, sy);
            v.ret(mk(v, Term.add(Term.mul(uns(x), pow10(s - sx)), Term.mul(uns(y), pow10(s - sy))), s));
            return true;
        });
        bdDef(vm, "subtract(" + BD + ")" + BD, (v, m, b) -> {
            BigDec x = bd(v, b), y = bd(v, b + 1);
            int sx = scl(v, x), sy = scl(v, y), s = Math.max(sx, sy);
            v.ret(mk(v, Term.sub(Term.mul(uns(x), pow10(s - sx)), Term.mul(uns(y), pow10(s - sy))), s));
            return true;
        });
        bdDef(vm, "multiply(" + BD + ")" + BD, (v, m, b) -> {
            BigDec x = bd(v, b), y = bd(v, b + 1);
            int sx = scl(v, x), sy = scl(v, y);
            v.ret(mk(v, Term.mul(uns(x), uns(y)), sx + sy));
            return true;
        });
        bdDef(vm, "divide(" + BD + "ILjava/math/RoundingMode;)" + BD, (v, m, b) -> { v.ret(bdDivide(v, bd(v, b), bd(v, b + 1), cint(v, b + 2), mode(v, v.R[b + 3]))); return true; });
        bdDef(vm, "divide(" + BD + "II)" + BD, (v, m, b) -> { v.ret(bdDivide(v, bd(v, b), bd(v, b + 1), cint(v, b + 2), RoundingMode.valueOf(cint(v, b + 3)))); return true; });
        bdDef(vm, "divide(" + BD + "Ljava/math/RoundingMode;)" + BD, (v, m, b) -> { v.ret(bdDivide(v, bd(v, b), bd(v, b + 1), scl(v, bd(v, b)), mode(v, v.R[b + 2]))); return true; });
        bdDef(vm, "remainder(" + BD + ")" + BD, (v, m, b) -> {
            BigDec x = bd(v, b), y = bd(v, b + 1);
            int sx = scl(v, x), sy = scl(v, y), s = Math.max(sx, sy);
            Term n = Term.mul(uns(x), pow10(s - sx)), d = Term.mul(uns(y), pow10(s - sy));
            if (v.path.branch(Term.eq(d, Term.c(0)))) throw v.exc("java/lang/ArithmeticException", "Division by zero");
            v.ret(mk(v, Term.trem(n, d), s));
            return true;
        });
        bdDef(vm, "compareTo(" + BD + ")I", (v, m, b) -> { v.retTerm(bdCompare(bd(v, b), bd(v, b + 1))); return true; });
        bdDef(vm, "compareTo(Ljava/lang/Object;)I", (v, m, b) -> {
            if (v.R[b + 1] != null && !(v.R[b + 1] instanceof BigDec)) throw v.exc("java/lang/ClassCastException", "not a BigDecimal");
            v.retTerm(bdCompare(bd(v, b), bd(v, b + 1))); return true;
        });
        bdDef(vm, "equals(Ljava/lang/Object;)Z", (v, m, b) -> {
            if (!(v.R[b + 1] instanceof BigDec)) { v.retPrim(0); return true; }
            BigDec x = bd(v, b), y = bd(v, b + 1);
            if (scl(v, x) != scl(v, y)) v.retPrim(0); else v.retBool(Term.eq(uns(x), uns(y)));
            return true;
        });
        bdDef(vm, "hashCode()I", (v, m, b) -> { BigDec x = bd(v, b); throw new Unsupported("hashCode of a symbolic BigDecimal"); });
        bdDef(vm, "negate()" + BD, (v, m, b) -> { BigDec x = bd(v, b); int s = scl(v, x); v.ret(mk(v, Term.neg(uns(x)), s)); return true; });
        bdDef(vm, "abs()" + BD, (v, m, b) -> { BigDec x = bd(v, b); int s = scl(v, x); v.ret(mk(v, abs(uns(x)), s)); return true; });
        bdDef(vm, "plus()" + BD, (v, m, b) -> { v.ret(v.R[b]); return true; });
        bdDef(vm, "signum()I", (v, m, b) -> { v.retTerm(Term.compare(uns(bd(v, b)), Term.c(0))); return true; });
        bdDef(vm, "scale()I", (v, m, b) -> { BigDec x = bd(v, b); v.retTerm(x.stripped ? looseScale(x) : Term.c(x.scale)); return true; });
        bdDef(vm, "precision()I", (v, m, b) -> {
            BigDec x = bd(v, b); scl(v, x);
            Term a = abs(uns(x)), r = Term.c(1);
            int max = a.hi.toString().length();
            for (int d = 1; d < max; d++) r = Term.ite(Term.ge(a, pow10(d)), Term.c(d + 1), r);
            v.retTerm(r); return true;
        });
        bdDef(vm, "unscaledValue()Ljava/math/BigInteger;", (v, m, b) -> { BigDec x = bd(v, b); scl(v, x); v.ret(bi(v, uns(x))); return true; });
        bdDef(vm, "toBigInteger()Ljava/math/BigInteger;", (v, m, b) -> { v.ret(bi(v, bdInt(bd(v, b)))); return true; });
        bdDef(vm, "toBigIntegerExact()Ljava/math/BigInteger;", (v, m, b) -> {
            if (!v.path.branch(bdIsInt(bd(v, b)))) throw v.exc("java/lang/ArithmeticException", "Rounding necessary");
            v.ret(bi(v, bdInt(bd(v, b)))); return true;
        });
        bdDef(vm, "stripTrailingZeros()" + BD, (v, m, b) -> {
            BigDec x = bd(v, b);
            v.ret(loose(v, x.u, x.scale, Integer.MIN_VALUE));
            return true;
        });
        bdDef(vm, "setScale(ILjava/math/RoundingMode;)" + BD, (v, m, b) -> { v.ret(setScale(v, bd(v, b), cint(v, b + 1), mode(v, v.R[b + 2]))); return true; });
        bdDef(vm, "setScale(II)" + BD, (v, m, b) -> { v.ret(setScale(v, bd(v, b), cint(v, b + 1), RoundingMode.valueOf(cint(v, b + 2)))); return true; });
        bdDef(vm, "setScale(I)" + BD, (v, m, b) -> { v.ret(setScale(v, bd(v, b), cint(v, b + 1), RoundingMode.UNNECESSARY)); return true; });
        bdDef(vm, "intValue()I", (v, m, b) -> { v.retTerm(Term.wrap32(bdInt(bd(v, b)))); return true; });
        bdDef(vm, "longValue()J", (v, m, b) -> { v.retTerm(Term.wrap64(bdInt(bd(v, b)))); return true; });
        bdDef(vm, "intValueExact()I", (v, m, b) -> { exactInt(v, bd(v, b), Term.I_MIN, Term.I_MAX); return true; });
        bdDef(vm, "longValueExact()J", (v, m, b) -> { exactInt(v, bd(v, b), Term.L_MIN, Term.L_MAX); return true; });
        bdDef(vm, "doubleValue()D", (v, m, b) -> {
            BigDec x = bd(v, b);
            retD(v, ofDecimal(v, uns(x), x.scale)); return true;
        });
        for (String op : new String[]{"add", "subtract", "multiply"}) bdDef(vm, op + "(" + BD + "Ljava/math/MathContext;)" + BD, (v, m, b) -> {
            BigDec x = bd(v, b), y = bd(v, b + 1);
            MathContext c = mc(v, v.R[b + 2]);
            int sx = scl(v, x), sy = scl(v, y), s = Math.max(sx, sy);
            Term p = Term.mul(uns(x), pow10(s - sx)), q = Term.mul(uns(y), pow10(s - sy));
            v.ret(op.equals("multiply") ? round(v, Term.mul(uns(x), uns(y)), sx + sy, c) : round(v, op.equals("add") ? Term.add(p, q) : Term.sub(p, q), s, c));
            return true;
        });
        for (String op : new String[]{"round", "plus", "negate", "abs"}) bdDef(vm, op + "(Ljava/math/MathContext;)" + BD, (v, m, b) -> {
            BigDec x = bd(v, b);
            int s = scl(v, x);
            v.ret(round(v, op.equals("negate") ? Term.neg(uns(x)) : op.equals("abs") ? abs(uns(x)) : uns(x), s, mc(v, v.R[b + 1]))); return true;
        });
        bdDef(vm, "divide(" + BD + "Ljava/math/MathContext;)" + BD, (v, m, b) -> { v.ret(divideMc(v, bd(v, b), bd(v, b + 1), mc(v, v.R[b + 2]))); return true; });
        bdDef(vm, "divide(" + BD + ")" + BD, (v, m, b) -> { v.ret(divideExact(v, bd(v, b), bd(v, b + 1))); return true; });
        bdDef(vm, "<init>(Ljava/lang/String;Ljava/math/MathContext;)V", (v, m, b) -> {
            if (v.R[b + 1] == null) throw v.npe();
            Object[] r = parseDecimal(v, v.R[b + 1]);
            copy((BigDec) v.R[b], round(v, (Term) r[0], (Integer) r[1], mc(v, v.R[b + 2]))); return true;
        });
        bdDef(vm, "<init>(JLjava/math/MathContext;)V", (v, m, b) -> { copy((BigDec) v.R[b], round(v, v.argT(b + 1), 0, mc(v, v.R[b + 3]))); return true; });
        bdDef(vm, "<init>(ILjava/math/MathContext;)V", (v, m, b) -> { copy((BigDec) v.R[b], round(v, v.argT(b + 1), 0, mc(v, v.R[b + 2]))); return true; });
        bdDef(vm, "<init>(DLjava/math/MathContext;)V", (v, m, b) -> {
            SDouble d = v.dbl(b + 1);
            BigDec x = loose(v, Term.mul(d.n, Term.c(BigInteger.valueOf(5).pow(d.k))), d.k, 0);
            copy((BigDec) v.R[b], round(v, uns(x), x.v != null ? x.v.scale() : x.scale, mc(v, v.R[b + 3]))); return true;
        });
        bdDef(vm, "max(" + BD + ")" + BD, (v, m, b) -> { v.ret(v.path.branch(Term.ge(bdCompare(bd(v, b), bd(v, b + 1)), Term.c(0))) ? v.R[b] : v.R[b + 1]); return true; });
        bdDef(vm, "min(" + BD + ")" + BD, (v, m, b) -> { v.ret(v.path.branch(Term.le(bdCompare(bd(v, b), bd(v, b + 1)), Term.c(0))) ? v.R[b] : v.R[b + 1]); return true; });
        bdDef(vm, "pow(I)" + BD, (v, m, b) -> {
            BigDec x = bd(v, b); int n = cint(v, b + 1);
            if (n < 0 || n > 12) throw new Unsupported("pow " + n);
            int s = scl(v, x); Term r = Term.c(1);
            for (int k = 0; k < n; k++) r = Term.mul(r, uns(x));
            v.ret(mk(v, r, s * n)); return true;
        });
        bdDef(vm, "movePointLeft(I)" + BD, (v, m, b) -> { BigDec x = bd(v, b); int s = scl(v, x) + cint(v, b + 1); v.ret(s >= 0 ? mk(v, uns(x), s) : mk(v, Term.mul(uns(x), pow10(-s)), 0)); return true; });
        bdDef(vm, "movePointRight(I)" + BD, (v, m, b) -> { BigDec x = bd(v, b); int s = scl(v, x) - cint(v, b + 1); v.ret(s >= 0 ? mk(v, uns(x), s) : mk(v, Term.mul(uns(x), pow10(-s)), 0)); return true; });
        bdDef(vm, "toPlainString()Ljava/lang/String;", (v, m, b) -> { v.ret(bdPlain(v, bd(v, b))); return true; });
        bdDef(vm, "toString()Ljava/lang/String;", (v, m, b) -> {
            BigDec x = bd(v, b);
            int s = scl(v, x);
            if (s < 0 || s > 6) throw new Unsupported("scientific rendering of a symbolic BigDecimal");
            v.ret(numStr(v, uns(x), s)); return true;
        });

        // BigInteger
        final String BI = "Ljava/math/BigInteger;";
        biDef(vm, "<init>(Ljava/lang/String;)V", (v, m, b) -> {
            if (v.R[b + 1] == null) throw v.npe();
            Object s = v.R[b + 1];
            BigInt r = (BigInt) v.R[b];
            Object[] d = parseDecimal(v, s);
            if ((Integer) d[1] != 0) throw v.exc("java/lang/NumberFormatException", "<symbolic>");
            r.t = (Term) d[0];
            if (r.t.isConst()) r.v = r.t.k;
            return true;
        });
        biDef(vm, "valueOf(J)" + BI, (v, m, b) -> { v.ret(bi(v, v.argT(b))); return true; });
        biDef(vm, "add(" + BI + ")" + BI, (v, m, b) -> { v.ret(bi(v, Term.add(bit(v, b), bit(v, b + 1)))); return true; });
        biDef(vm, "subtract(" + BI + ")" + BI, (v, m, b) -> { v.ret(bi(v, Term.sub(bit(v, b), bit(v, b + 1)))); return true; });
        biDef(vm, "multiply(" + BI + ")" + BI, (v, m, b) -> { v.ret(bi(v, Term.mul(bit(v, b), bit(v, b + 1)))); return true; });
        biDef(vm, "divide(" + BI + ")" + BI, (v, m, b) -> {
            if (v.path.branch(Term.eq(bit(v, b + 1), Term.c(0)))) throw v.exc("java/lang/ArithmeticException", "BigInteger divide by zero");
            v.ret(bi(v, Term.tdiv(bit(v, b), bit(v, b + 1)))); return true;
        });
        biDef(vm, "remainder(" + BI + ")" + BI, (v, m, b) -> {
            if (v.path.branch(Term.eq(bit(v, b + 1), Term.c(0)))) throw v.exc("java/lang/ArithmeticException", "BigInteger divide by zero");
            v.ret(bi(v, Term.trem(bit(v, b), bit(v, b + 1)))); return true;
        });
        biDef(vm, "negate()" + BI, (v, m, b) -> { v.ret(bi(v, Term.neg(bit(v, b)))); return true; });
        biDef(vm, "abs()" + BI, (v, m, b) -> { v.ret(bi(v, abs(bit(v, b)))); return true; });
        biDef(vm, "signum()I", (v, m, b) -> { v.retTerm(Term.compare(bit(v, b), Term.c(0))); return true; });
        biDef(vm, "compareTo(" + BI + ")I", (v, m, b) -> { v.retTerm(Term.compare(bit(v, b), bit(v, b + 1))); return true; });
        biDef(vm, "compareTo(Ljava/lang/Object;)I", (v, m, b) -> { v.retTerm(Term.compare(bit(v, b), bit(v, b + 1))); return true; });
        biDef(vm, "equals(Ljava/lang/Object;)Z", (v, m, b) -> {
            if (!(v.R[b + 1] instanceof BigInt)) { v.retPrim(0); return true; }
            v.retBool(Term.eq(bit(v, b), bit(v, b + 1))); return true;
        });
        biDef(vm, "intValue()I", (v, m, b) -> { v.retTerm(Term.wrap32(bit(v, b))); return true; });
        biDef(vm, "longValue()J", (v, m, b) -> { v.retTerm(Term.wrap64(bit(v, b))); return true; });
        biDef(vm, "intValueExact()I", (v, m, b) -> { Term t = bit(v, b); if (!v.path.branch(inRange(t, Term.I_MIN, Term.I_MAX))) throw v.exc("java/lang/ArithmeticException", "BigInteger out of int range"); v.retTerm(Term.clampCopy(t, Term.I_MIN, Term.I_MAX)); return true; });
        biDef(vm, "longValueExact()J", (v, m, b) -> { Term t = bit(v, b); if (!v.path.branch(inRange(t, Term.L_MIN, Term.L_MAX))) throw v.exc("java/lang/ArithmeticException", "BigInteger out of long range"); v.retTerm(Term.clampCopy(t, Term.L_MIN, Term.L_MAX)); return true; });
        biDef(vm, "bitLength()I", (v, m, b) -> {
            Term t = bit(v, b), a = Term.ite(Term.ge(t, Term.c(0)), t, Term.sub(Term.neg(t), Term.c(1))), r = Term.c(0);
            int max = Math.max(t.lo.bitLength(), t.hi.bitLength());
            for (int d = 0; d < max; d++) r = Term.ite(Term.ge(a, Term.c(BigInteger.ONE.shiftLeft(d))), Term.c(d + 1), r);
            v.retTerm(r); return true;
        });
        biDef(vm, "pow(I)" + BI, (v, m, b) -> {
            int n = cint(v, b + 1);
            if (n < 0 || n > 12) throw new Unsupported("pow " + n);
            Term r = Term.c(1);
            for (int k = 0; k < n; k++) r = Term.mul(r, bit(v, b));
            v.ret(bi(v, r)); return true;
        });
        biDef(vm, "toString()Ljava/lang/String;", (v, m, b) -> { v.ret(numStr(v, bit(v, b), 0)); return true; });
    }
    private static void exactInt(Vm v, BigDec x, BigInteger lo, BigInteger hi) {
        if (!v.path.branch(bdIsInt(x))) throw v.exc("java/lang/ArithmeticException", "Rounding necessary");
        Term t = bdInt(x);
        if (!v.path.branch(inRange(t, lo, hi))) throw v.exc("java/lang/ArithmeticException", "Overflow");
        v.retTerm(Term.clampCopy(t, lo, hi));
    }
    static Object bdPlain(Vm v, BigDec x) {
        if (x.v != null) return x.v.toPlainString();
        if (x.stripped) {
            if (x.floor <= 0 && v.path.branch(bdIsInt(x))) return numStr(v, bdInt(x), 0);
            norm(v, x);
        }
        if (x.scale <= 0) return numStr(v, Term.mul(x.u, pow10(-x.scale)), 0);
        return numStr(v, x.u, x.scale);
    }
    static Term bit(Vm v, int slot) {
        BigInt b = (BigInt) v.R[slot];
        if (b == null) throw v.npe();
        return b.v != null ? Term.c(b.v) : b.t;
    }
    static BigInt bi(Vm vm, Term t) {
        BigInt b = new BigInt(vm.bigIntCI);
        if (t.isConst()) b.v = t.k; else b.t = t;
        return b;
    }
    private static void biDef(Vm vm, String sig, Nat n) {
        def(vm, "java/math/BigInteger." + sig, (v, m, b) -> hostBd(v, m, b) || n.call(v, m, b));
    }

    /** decimal text with symbolic characters -> {unscaled, scale}; NumberFormatException on malformed text */
    static Object[] parseDecimal(Vm vm, Object s) {
        if (s instanceof NumStr && !((NumStr) s).materialised) return new Object[]{((NumStr) s).u, ((NumStr) s).scale};
        noWideDigits(vm, s);
        Arr a = vm.bytesOf(s);
        Path p = vm.path;
        int k = 0;
        boolean neg = false;
        if (a.len == 0) throw vm.exc("java/lang/NumberFormatException", "empty");
        Term c0 = Vm.byteTerm(a, 0);
        if (p.branch(Term.eq(c0, Term.c('-')))) { neg = true; k++; }
        else if (p.branch(Term.eq(c0, Term.c('+')))) k++;
        Term u = Term.c(0);
        int scale = 0, digits = 0;
        boolean dot = false;
        for (; k < a.len; k++) {
            Term c = Vm.byteTerm(a, k);
            if (p.branch(Term.and(Term.ge(c, Term.c('0')), Term.le(c, Term.c('9'))))) {
                u = Term.add(Term.mul(u, Term.c(10)), Term.clampCopy(Term.sub(c, Term.c('0')), BigInteger.ZERO, BigInteger.valueOf(9)));
                digits++;
                if (dot) scale++;
            } else if (!dot && p.branch(Term.eq(c, Term.c('.')))) dot = true;
            else if (digits > 0 && p.branch(Term.or(Term.eq(c, Term.c('e')), Term.eq(c, Term.c('E'))))) throw new Unsupported("exponent in symbolic number text");
            else throw vm.exc("java/lang/NumberFormatException", "<symbolic>");
        }
        if (digits == 0) throw vm.exc("java/lang/NumberFormatException", "<symbolic>");
        return new Object[]{neg ? Term.neg(u) : u, scale};
    }

    static SDouble parseDouble(Vm vm, Object s) {
        if (s == null) throw vm.npe();
        if (!lazy(s)) {
            noWideDigits(vm, s);
            Arr a = vm.bytesOf(s);
            Term odd = Term.FALSE;
            for (int k = 0; k < a.len; k++) {
                Term c = Vm.byteTerm(a, k);
                odd = Term.or(odd, Term.le(c, Term.c(' ')));
                for (char x : "dDfFNIxX".toCharArray()) odd = Term.or(odd, Term.eq(c, Term.c(x)));
            }
            if (vm.path.branch(odd)) throw new Unsupported("unusual text of a double");
        }
        Object[] r = parseDecimal(vm, s);
        return ofDecimal(vm, (Term) r[0], (Integer) r[1]);
    }

    // ------------------------------------------------------------------ lambdas and invokedynamic
    static void indy(Vm vm, MethodInfo caller, CallSite s, int b) {
        InvokeDynamicInsnNode q = (InvokeDynamicInsnNode) s.indy;
        String bo = q.bsm.getOwner(), bn = q.bsm.getName();
        if (bo.equals("java/lang/invoke/LambdaMetafactory")) {
            Type rt = Type.getReturnType(q.desc);
            ClassInfo itf = vm.cls(rt.getInternalName());
            List<ClassInfo> itfs = new ArrayList<>(List.of(itf));
            if (bn.equals("altMetafactory")) {
                int flags = (Integer) q.bsmArgs[3];
                if ((flags & 1) != 0) itfs.add(vm.cls("java/io/Serializable"));
                if ((flags & 2) != 0) for (int k = 0; k < (Integer) q.bsmArgs[4]; k++) itfs.add(vm.cls(((Type) q.bsmArgs[5 + k]).getInternalName()));
            }
            StringBuilder kb = new StringBuilder("lambda");
            for (ClassInfo c : itfs) kb.append('$').append(c.name);
            String key = kb.toString();
            ClassInfo lc = vm.classes.get(key);
            if (lc == null) {
                lc = new ClassInfo(vm, key);
                lc.sup = vm.objectCI; lc.itfs = itfs.toArray(new ClassInfo[0]); lc.jdk = true; lc.initState = 2; lc.access = ACC_PUBLIC;
                vm.classes.put(key, lc);
            }
            LambdaObj o = new LambdaObj(lc);
            o.itf = itf;
            o.samName = q.name;
            o.samDesc = ((Type) q.bsmArgs[0]).getDescriptor();
            o.impl = (Handle) q.bsmArgs[1];
            o.instType = (Type) q.bsmArgs[2];
            o.cp = Arrays.copyOfRange(vm.P, b, b + s.argSlots);
            o.cr = Arrays.copyOfRange(vm.R, b, b + s.argSlots);
            o.site = s;
            vm.ret(o);
            return;
        }
        if (bo.equals("java/lang/invoke/StringConcatFactory")) {
            Type[] at = Type.getArgumentTypes(q.desc);
            List<Object> parts = new ArrayList<>();
            int slot = b, ci = 1, ai = 0;
            String recipe = bn.equals("makeConcatWithConstants") ? (String) q.bsmArgs[0] : "\1".repeat(at.length);
            StringBuilder lit = new StringBuilder();
            for (char ch : recipe.toCharArray()) {
                if (ch == 1) {
                    if (lit.length() > 0) { parts.add(lit.toString()); lit.setLength(0); }
                    parts.add(strOf(vm, at[ai], slot));
                    slot += at[ai++].getSize();
                } else if (ch == 2) lit.append(q.bsmArgs[ci++]);
                else lit.append(ch);
            }
            if (lit.length() > 0) parts.add(lit.toString());
            vm.ret(concat(vm, parts));
            return;
        }
        if (bo.equals("java/lang/runtime/ObjectMethods")) { objectMethods(vm, q, b); return; }
        if (bo.equals("java/lang/runtime/SwitchBootstraps")) {
            int start = cint(vm, b + 1);
            Object x = vm.R[b];
            if (x == null) { vm.retPrim(-1); return; }
            for (int k = start; k < q.bsmArgs.length; k++) {
                Object l = q.bsmArgs[k];
                boolean hit;
                if (l instanceof Type) hit = vm.classOf(x).isSubOf(vm.byDesc(((Type) l).getDescriptor()));
                else if (l instanceof String) {
                    if (vm.classOf(x) == vm.stringCI) hit = vm.path.branch(strEq(vm, x, l));
                    else hit = l.equals(vm.hostString(((Obj) x).r[((Obj) x).cls.slot("name")]));
                } else if (l instanceof Integer) {
                    if (!(x instanceof Obj) || !vm.classOf(x).name.equals("java/lang/Integer")) hit = false;
                    else { Object sy = vm.boxSym(x); hit = sy == null ? vm.boxBits(x) == (Integer) l : vm.path.branch(Term.eq((Term) sy, Term.c((Integer) l))); }
                } else throw new Unsupported("switch label " + l);
                if (hit) { vm.retPrim(k); return; }
            }
            vm.retPrim(q.bsmArgs.length);
            return;
        }
        throw new Unsupported("indy " + bo + "." + bn);
    }

    static void objectMethods(Vm vm, InvokeDynamicInsnNode q, int b) {
        Obj self = (Obj) vm.R[b];
        if (!self.filled) vm.fill(self);
        Handle[] hs = new Handle[q.bsmArgs.length - 2];
        for (int k = 0; k < hs.length; k++) hs[k] = (Handle) q.bsmArgs[k + 2];
        if (q.name.equals("equals")) {
            Object y = vm.R[b + 1];
            if (y == self) { vm.retPrim(1); return; }
            if (!(y instanceof Obj) || ((Obj) y).cls != self.cls) { vm.retPrim(0); return; }
            Term r = Term.TRUE;
            for (Handle h : hs) {
                FieldInfo f = self.cls.findField(h.getName(), h.getDesc());
                if (f.isRef()) {
                    Object u = self.r[f.slot], w = ((Obj) y).r[f.slot];
                    Object e = u == null ? (Object) (long) (w == null ? 1 : 0) : vm.callVirtual(u, "equals", "(Ljava/lang/Object;)Z", w);
                    r = Term.and(r, e instanceof Term ? Term.boolOf((Term) e) : Term.bool((Long) e != 0));
                } else {
                    Term u = self.r[f.slot] != null ? (Term) self.r[f.slot] : Term.c(self.p[f.slot]);
                    Term w = ((Obj) y).r[f.slot] != null ? (Term) ((Obj) y).r[f.slot] : Term.c(((Obj) y).p[f.slot]);
                    r = Term.and(r, Term.eq(u, w));
                }
            }
            vm.retBool(r);
        } else if (q.name.equals("hashCode")) {
            Term r = Term.c(0);
            for (Handle h : hs) {
                FieldInfo f = self.cls.findField(h.getName(), h.getDesc());
                Term e;
                if (f.isRef()) {
                    Object u = self.r[f.slot];
                    Object x = u == null ? (Object) 0L : vm.callVirtual(u, "hashCode", "()I");
                    e = x instanceof Term ? (Term) x : Term.c((Long) x);
                } else {
                    e = self.r[f.slot] != null ? (Term) self.r[f.slot] : Term.c(self.p[f.slot]);
                    if (f.desc.equals("J")) { if (!e.isConst()) throw new Unsupported("record hash"); e = Term.c(Long.hashCode(e.k.longValue())); }
                }
                r = Term.wrap32(Term.add(Term.mul(r, Term.c(31)), e));
            }
            vm.retTerm(r);
        } else {
            StringBuilder sb = new StringBuilder(self.cls.name.substring(Math.max(self.cls.name.lastIndexOf('/'), self.cls.name.lastIndexOf('$')) + 1)).append('[');
            for (int k = 0; k < hs.length; k++) {
                FieldInfo f = self.cls.findField(hs[k].getName(), hs[k].getDesc());
                sb.append(k > 0 ? ", " : "").append(f.name).append('=').append(f.isRef() ? vm.toStr(self.r[f.slot]) : self.r[f.slot] != null ? "<symbolic>" : String.valueOf(self.p[f.slot]));
            }
            vm.ret(sb.append(']').toString());
        }
    }

    static Object strOf(Vm vm, Type t, int slot) {
        Object r = vm.R[slot];
        switch (t.getSort()) {
            case Type.OBJECT: case Type.ARRAY: {
                if (r == null) return "null";
                if (r instanceof String || ((Ref) r).cls == vm.stringCI) return r;
                Object s = vm.callVirtual(r, "toString", "()Ljava/lang/String;");
                return s == null ? "null" : s;
            }
            case Type.BOOLEAN: if (r != null) return vm.path.branch(Term.boolOf((Term) r)) ? "true" : "false"; return vm.P[slot] != 0 ? "true" : "false";
            case Type.CHAR:
                if (r != null) return ofChars(vm, new Term[]{(Term) r});
                return String.valueOf((char) vm.P[slot]);
            case Type.DOUBLE: if (r != null) return doubleString(vm, (SDouble) r); return String.valueOf(Double.longBitsToDouble(vm.P[slot]));
            case Type.FLOAT: if (r != null) throw new Unsupported("float text"); return String.valueOf(Float.intBitsToFloat((int) vm.P[slot]));
            default: if (r != null) return numStr(vm, (Term) r, 0); return String.valueOf(vm.P[slot]);
        }
    }
    static Object concat(Vm vm, List<Object> parts) {
        StringBuilder sb = new StringBuilder();
        boolean conc = true;
        Object only = null; int nonEmpty = 0;
        for (Object p : parts) {
            String h = vm.hostString(p);
            if (h == null) conc = false; else sb.append(h);
            if (h == null || !h.isEmpty()) { only = p; nonEmpty++; }
        }
        if (conc) return sb.toString();
        if (nonEmpty == 1) return only;
        int n = 0;
        List<Arr> as = new ArrayList<>();
        boolean wide = false;
        for (Object p : parts) if (!vm.isLatin1(p)) wide = true;
        if (wide) {
            List<Term> cs = new ArrayList<>();
            for (Object p : parts) cs.addAll(Arrays.asList(chars(vm, p)));
            return ofChars(vm, cs.toArray(new Term[0]));
        }
        for (Object p : parts) {
            Arr a = vm.bytesOf(p); as.add(a); n += a.len;
        }
        Arr out = new Arr(vm.cls("[B"), n);
        out.r = new Object[n];
        int w = 0;
        for (Arr a : as) for (int k = 0; k < a.len; k++) { out.p[w] = a.p[k]; out.r[w++] = a.r == null ? null : a.r[k]; }
        return vm.symString(out);
    }

    /** invoke a lambda from an interpreted call site: receiver at sp, SAM arguments behind it */
    static void callLambda(Vm vm, LambdaObj lo, CallSite s, int sp) {
        Type[] sam = Type.getArgumentTypes(s.desc);
        invokeImpl(vm, lo, sam, sp + 1, Type.getReturnType(s.desc), Math.max(vm.top, sp + s.argSlots + 2));
    }
    static Object callLambdaDirect(Vm vm, LambdaObj lo, MethodInfo m, Object[] all) {
        int base = vm.top, s = base;
        for (int k = 0; k < m.args.length; k++) {
            Type t = m.args[k];
            Object v = all[k + 1];
            if (t.getSort() == Type.OBJECT || t.getSort() == Type.ARRAY) vm.R[s] = v;
            else if (v instanceof Long) { vm.P[s] = (Long) v; vm.R[s] = null; }
            else vm.R[s] = v;
            s += t.getSize();
        }
        int t0 = vm.top;
        vm.top = s;
        try { invokeImpl(vm, lo, m.args, base, m.ret, s + 1); } finally { vm.top = t0; }
        return m.retRef ? vm.retR : m.retSize == 0 ? null : vm.retR != null ? vm.retR : (Object) vm.retP;
    }
    private static void invokeImpl(Vm vm, LambdaObj lo, Type[] sam, int src, Type samRet, int base) {
        Handle h = lo.impl;
        ClassInfo oc = h.getOwner().charAt(0) == '[' ? vm.objectCI : vm.cls(h.getOwner());
        MethodInfo t = vm.findMethod(oc, h.getName() + h.getDesc());
        if (t == null && h.getName().equals("clone")) throw new Unsupported("array clone reference");
        if (t == null) throw new Unsupported("lambda target " + h);
        int t0 = vm.top;
        int d = base;
        try {
            Obj created = null;
            List<Type> params = new ArrayList<>();
            int tag = h.getTag();
            if (tag == H_NEWINVOKESPECIAL) {
                vm.ensureInit(t.owner);
                created = vm.newObj(t.owner);
                vm.R[d++] = created;
            } else if (tag != H_INVOKESTATIC) params.add(Type.getObjectType(h.getOwner()));
            params.addAll(Arrays.asList(t.args));
            Type[] cap = Type.getArgumentTypes(lo.site.desc);
            int ci = 0, pi = 0;
            for (Type c : cap) { // captured values already have the parameter types
                vm.P[d] = lo.cp[ci]; vm.R[d] = lo.cr[ci];
                d += c.getSize(); ci += c.getSize(); pi++;
            }
            Type[] inst = lo.instType.getArgumentTypes();
            int s = src;
            for (int k = 0; k < sam.length; k++) {
                Type to = params.get(pi++);
                vm.top = d + 4;
                adapt(vm, sam[k], to, s, d, inst.length > k ? inst[k] : null);
                s += sam[k].getSize(); d += to.getSize();
            }
            vm.top = d + 1;
            if (t.owner.initState != 2 && tag == H_INVOKESTATIC) vm.ensureInit(t.owner);
            MethodInfo target = t;
            if (tag == H_INVOKEVIRTUAL || tag == H_INVOKEINTERFACE) {
                Object recv = vm.R[base];
                if (recv == null) throw vm.npe();
                if (recv instanceof LambdaObj && t.isAbstract()) {
                    invokeImpl(vm, (LambdaObj) recv, t.args, base + 1, t.ret, d + 1);
                    target = null;
                } else if ((t.access & ACC_PRIVATE) == 0) {
                    ClassInfo k = vm.classOf(recv);
                    target = k.array ? vm.objectCI.findVirtual(t.name + t.desc) : k.findVirtual(t.name + t.desc);
                    if (target == null) throw new Unsupported("no method " + k + "." + t.name);
                }
            }
            if (target != null) vm.invoke(target, base);
            Type ret = t.ret;
            if (created != null) { vm.ret(created); ret = Type.getObjectType(t.owner.name); }
            if (samRet.getSort() == Type.VOID) { vm.retR = null; return; }
            vm.P[base] = vm.retP; vm.R[base] = vm.retR;
            vm.top = base + 4;
            adapt(vm, ret, samRet, base, base, null);
            vm.retP = vm.P[base]; vm.retR = vm.R[base];
        } finally { vm.top = t0; }
    }
    private static boolean isRef(Type t) { return t.getSort() == Type.OBJECT || t.getSort() == Type.ARRAY; }
    private static void adapt(Vm vm, Type from, Type to, int s, int d, Type inst) {
        if (isRef(from) == isRef(to)) {
            if (!isRef(from) && from.getSort() != to.getSort() && to.getSort() == Type.DOUBLE && from.getSort() != Type.FLOAT) {
                if (vm.R[s] != null) { vm.R[d] = vm.R[s]; l2d(vm, d); } else { vm.P[d] = Double.doubleToRawLongBits((double) vm.P[s]); vm.R[d] = null; }
                return;
            }
            vm.P[d] = vm.P[s]; vm.R[d] = vm.R[s];
            return;
        }
        if (isRef(from)) {
            Object o = vm.R[s];
            if (o == null) throw vm.npe();
            Obj b = (Obj) o;
            FieldInfo f = b.cls.fields.get("value");
            if (f == null || f.isRef()) throw vm.exc("java/lang/ClassCastException", "unboxing " + b.cls);
            if (!b.filled) vm.fill(b);
            vm.P[d] = b.p[f.slot]; vm.R[d] = b.r[f.slot];
            if (to.getSort() == Type.DOUBLE && !b.cls.name.equals("java/lang/Double")) {
                if (vm.R[d] != null) l2d(vm, d); else vm.P[d] = Double.doubleToRawLongBits((double) vm.P[d]);
            }
            return;
        }
        Object o = boxed(vm, from, s);
        vm.R[d] = o;
    }
    static Object boxed(Vm vm, Type t, int s) {
        switch (t.getSort()) {
            case Type.INT: return vm.R[s] != null ? vm.box("java/lang/Integer", 0, vm.R[s]) : vm.boxInt(vm.P[s]);
            case Type.BOOLEAN: return vm.R[s] != null ? vm.box("java/lang/Boolean", 0, vm.R[s]) : vm.lift(vm.P[s] != 0);
            case Type.LONG: return vm.R[s] != null || vm.P[s] < -128 || vm.P[s] > 127 ? vm.box("java/lang/Long", vm.P[s], vm.R[s]) : vm.lift(vm.P[s]);
            case Type.CHAR: return vm.box("java/lang/Character", vm.P[s], vm.R[s]);
            case Type.SHORT: return vm.box("java/lang/Short", vm.P[s], vm.R[s]);
            case Type.BYTE: return vm.box("java/lang/Byte", vm.P[s], vm.R[s]);
            case Type.FLOAT: return vm.box("java/lang/Float", vm.P[s], vm.R[s]);
            default: return vm.box("java/lang/Double", vm.P[s], vm.R[s]);
        }
    }

    // ------------------------------------------------------------------ everything else
    static int idHash(Vm vm, Object o) {
        if (o == null) return 0;
        if (o instanceof String) return System.identityHashCode(o) & 0xffff;
        Ref r = (Ref) o;
        if (r.hash == 0) r.hash = (vm.hashSeq++ * 0x9E3779B9) >>> 4 | 1;
        return r.hash;
    }
    static ClassInfo of(Vm vm, Object mirror) { if (mirror == null) throw vm.npe(); return ((Mirror) mirror).of; }

    static void exact(Vm v, MethodInfo m, Term r, boolean wide) {
        BigInteger lo = wide ? Term.L_MIN : Term.I_MIN, hi = wide ? Term.L_MAX : Term.I_MAX;
        if (!v.path.branch(inRange(r, lo, hi))) throw v.exc("java/lang/ArithmeticException", wide ? "long overflow" : "integer overflow");
        v.retTerm(Term.clampCopy(r, lo, hi));
    }

    /** host-side canonical rendering of observed values */
    static void install(Vm vm) {
        installBig(vm);
        // ---- Object / Class / System
        def(vm, "java/lang/Object.<init>", (v, m, b) -> true);
        def(vm, "java/lang/Object.getClass", (v, m, b) -> { v.ret(v.mirror(v.classOf(v.R[b]))); return true; });
        def(vm, "java/lang/Object.hashCode", (v, m, b) -> { v.retPrim(idHash(v, v.R[b])); return true; });
        def(vm, "java/lang/Object.notifyAll", (v, m, b) -> true);
        def(vm, "java/lang/Object.clone", (v, m, b) -> {
            Object o = v.R[b];
            if (o instanceof Arr) {
                Arr a = (Arr) o;
                if (!a.filled) v.fill(a);
                Arr c = new Arr(a.cls, a.len, true);
                c.p = a.p == null ? null : a.p.clone(); c.r = a.r == null ? null : a.r.clone();
                v.ret(c);
            } else {
                Obj a = (Obj) o;
                if (!a.filled) v.fill(a);
                Obj c = v.newObj(a.cls);
                System.arraycopy(a.p, 0, c.p, 0, a.p.length); System.arraycopy(a.r, 0, c.r, 0, a.r.length);
                v.ret(c);
            }
            return true;
        });
        String C = "java/lang/Class.";
        def(vm, C + "desiredAssertionStatus", (v, m, b) -> { v.retPrim(0); return true; });
        def(vm, C + "getName", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret((c.primitive ? Vm.primName(c.name) : c.name.replace('/', '.')).intern()); return true; });
        def(vm, C + "getTypeName", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret((c.primitive ? Vm.primName(c.name) : c.name.replace('/', '.')).intern()); return true; });
        def(vm, C + "getSimpleName", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret(simple(c)); return true; });
        def(vm, C + "toString", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret("class " + c.name.replace('/', '.')); return true; });
        def(vm, C + "isInstance", (v, m, b) -> { Object o = v.R[b + 1]; v.retPrim(o != null && v.classOf(o).isSubOf(of(v, v.R[b])) ? 1 : 0); return true; });
        def(vm, C + "cast", (v, m, b) -> {
            Object o = v.R[b + 1];
            if (o != null && !v.classOf(o).isSubOf(of(v, v.R[b]))) throw v.exc("java/lang/ClassCastException", "Cannot cast");
            v.ret(o); return true;
        });
        def(vm, C + "isAssignableFrom", (v, m, b) -> { v.retPrim(of(v, v.R[b + 1]).isSubOf(of(v, v.R[b])) ? 1 : 0); return true; });
        def(vm, C + "isInterface", (v, m, b) -> { v.retPrim(of(v, v.R[b]).isInterface() ? 1 : 0); return true; });
        def(vm, C + "isArray", (v, m, b) -> { v.retPrim(of(v, v.R[b]).array ? 1 : 0); return true; });
        def(vm, C + "isPrimitive", (v, m, b) -> { v.retPrim(of(v, v.R[b]).primitive ? 1 : 0); return true; });
        def(vm, C + "isEnum", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.retPrim(c.sup != null && c.sup.name.equals("java/lang/Enum") ? 1 : 0); return true; });
        def(vm, C + "isRecord", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.retPrim(c.sup != null && c.sup.name.equals("java/lang/Record") ? 1 : 0); return true; });
        def(vm, C + "isHidden", (v, m, b) -> { v.retPrim(0); return true; });
        def(vm, C + "getModifiers", (v, m, b) -> { v.retPrim(of(v, v.R[b]).access & 0x7fff); return true; });
        def(vm, C + "getSuperclass", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret(c.sup == null || c.isInterface() ? null : v.mirror(c.sup)); return true; });
        def(vm, C + "getComponentType", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret(c.comp == null ? null : v.mirror(c.comp)); return true; });
        def(vm, C + "getClassLoader", (v, m, b) -> { v.ret(null); return true; });
        def(vm, C + "getClassLoader0", (v, m, b) -> { v.ret(null); return true; });
        def(vm, C + "getPackageName", (v, m, b) -> { String n = of(v, v.R[b]).name.replace('/', '.'); v.ret(n.contains(".") ? n.substring(0, n.lastIndexOf('.')) : ""); return true; });
        def(vm, C + "hashCode", (v, m, b) -> { v.retPrim(of(v, v.R[b]).name.hashCode()); return true; });
        def(vm, C + "getPrimitiveClass", (v, m, b) -> {
            String n = v.hostString(v.R[b]);
            String d = "IJZBCSFDV".charAt(Arrays.asList("int", "long", "boolean", "byte", "char", "short", "float", "double", "void").indexOf(n)) + "";
            v.ret(v.mirror(v.byDesc(d))); return true;
        });
        Nat enumConsts = (v, m, b) -> {
            ClassInfo c = of(v, v.R[b]);
            v.ensureInit(c);
            MethodInfo vals = c.methods.get("values()[L" + c.name + ";");
            v.ret(vals == null ? null : v.call(vals)); return true;
        };
        def(vm, C + "getEnumConstantsShared", enumConsts);
        def(vm, C + "getEnumConstants", enumConsts);
        Nat universe = enumConsts;
        def(vm, "java/util/EnumMap.getKeyUniverse", universe);
        def(vm, "java/util/EnumSet.getUniverse", universe);
        def(vm, "java/lang/Enum.valueOf", (v, m, b) -> {
            ClassInfo c = of(v, v.R[b]);
            String n = v.hostString(v.R[b + 1]);
            if (n == null) throw new Unsupported("Enum.valueOf symbolic");
            v.ensureInit(c);
            Arr a = (Arr) v.call(c.methods.get("values()[L" + c.name + ";"));
            if (!a.filled) v.fill(a);
            for (Object o : a.r) if (!((Obj) o).filled) v.fill((Obj) o);
            for (Object o : a.r) if (n.equals(v.hostString(((Obj) o).r[((Obj) o).cls.slot("name")]))) { v.ret(o); return true; }
            throw v.exc("java/lang/IllegalArgumentException", "No enum constant");
        });
        def(vm, "java/lang/Enum.hashCode", (v, m, b) -> {
            Obj o = (Obj) v.R[b];
            if (!o.filled) v.fill(o);
            String n = v.hostString(o.r[o.cls.slot("name")]);
            if (n == null) throw new Unsupported("hash code of " + o.cls.name + " without a name");
            v.retPrim(n.hashCode()); return true;
        });
        def(vm, "java/lang/System.arraycopy", Natives::arraycopy);
        def(vm, "java/lang/System.identityHashCode", (v, m, b) -> { v.retPrim(idHash(v, v.R[b])); return true; });
        def(vm, "java/lang/System.nanoTime", (v, m, b) -> { v.retPrim(1000000L); return true; });
        def(vm, "java/lang/System.currentTimeMillis", (v, m, b) -> { nowDate(v); throw new Unsupported("currentTimeMillis"); });
        def(vm, "java/lang/System.getSecurityManager", (v, m, b) -> { v.ret(null); return true; });
        def(vm, "java/lang/System.getProperty", (v, m, b) -> { v.ret(m.args.length == 2 ? v.R[b + 1] : System.getProperty(v.hostString(v.R[b]))); return true; });
        def(vm, "java/lang/System.lineSeparator", (v, m, b) -> { v.ret("\n"); return true; });
        def(vm, "java/lang/Thread.currentThread", (v, m, b) -> {
            Obj t = v.thread;
            if (t == null) { t = v.thread = new Obj(v.cls("java/lang/Thread")); }
            v.ret(t); return true;
        });
        def(vm, "java/lang/Thread.isInterrupted", (v, m, b) -> { v.retPrim(0); return true; });
        def(vm, "java/lang/Thread.onSpinWait", (v, m, b) -> true);
        def(vm, "java/security/AccessController.doPrivileged", (v, m, b) -> { v.ret(v.callVirtual(v.R[b], "run", "()Ljava/lang/Object;")); return true; });
        def(vm, "jdk/internal/reflect/Reflection.getCallerClass", (v, m, b) -> { v.ret(v.mirror(v.objectCI)); return true; });
        def(vm, "java/lang/reflect/Array.newArray", (v, m, b) -> { ClassInfo c = of(v, v.R[b]); v.ret(new Arr(v.cls(c.primitive ? "[" + c.name : c.array ? "[" + c.name : "[L" + c.name + ";"), cint(v, b + 1))); return true; });
        def(vm, "java/lang/reflect/Array.newInstance(Ljava/lang/Class;I)Ljava/lang/Object;", vm.nats.get("java/lang/reflect/Array.newArray"));
        def(vm, "java/lang/reflect/Array.getLength", (v, m, b) -> { v.retPrim(((Arr) v.R[b]).len); return true; });
        def(vm, "java/lang/Runtime.availableProcessors", (v, m, b) -> { v.retPrim(1); return true; });
        // ---- Throwable
        def(vm, "java/lang/Throwable.fillInStackTrace", (v, m, b) -> { v.ret(v.R[b]); return true; });
        def(vm, "java/lang/Throwable.printStackTrace", (v, m, b) -> true);
        def(vm, "java/lang/Throwable.addSuppressed", (v, m, b) -> true);
        def(vm, "java/lang/Throwable.getStackTrace", (v, m, b) -> { v.ret(new Arr(v.cls("[Ljava/lang/StackTraceElement;"), 0)); return true; });
        def(vm, "java/io/PrintStream.println", (v, m, b) -> true);
        def(vm, "java/io/PrintStream.print", (v, m, b) -> true);
        // ---- boxes
        def(vm, "java/lang/Integer.valueOf(I)Ljava/lang/Integer;", (v, m, b) -> { v.ret(boxed(v, Type.INT_TYPE, b)); return true; });
        def(vm, "java/lang/Long.valueOf(J)Ljava/lang/Long;", (v, m, b) -> { v.ret(boxed(v, Type.LONG_TYPE, b)); return true; });
        def(vm, "java/lang/Boolean.valueOf(Z)Ljava/lang/Boolean;", (v, m, b) -> { v.ret(boxed(v, Type.BOOLEAN_TYPE, b)); return true; });
        for (String bx : new String[]{"Integer.intValue", "Integer.longValue", "Long.longValue", "Boolean.booleanValue", "Character.charValue", "Double.doubleValue", "Short.shortValue", "Byte.byteValue", "Float.floatValue"})
            def(vm, "java/lang/" + bx, (v, m, b) -> { Obj o = (Obj) v.R[b]; int s = o.cls.slot("value"); v.retP = o.p[s]; v.retR = o.r[s]; return true; });
        for (String w : new String[]{"Integer", "Long", "Short", "Byte"}) {
            def(vm, "java/lang/" + w + ".hashCode()I", (v, m, b) -> { // consistent with equals; the exact value is not observable through maps
                Object s = v.boxSym(v.R[b]);
                if (s == null) return false;
                v.retTerm(Term.wrap32((Term) s)); return true;
            });
        }
        for (String w : new String[]{"Boolean", "Character", "Double", "Float"})
            def(vm, "java/lang/" + w + ".hashCode()I", (v, m, b) -> false);
        def(vm, "java/lang/Integer.compare", (v, m, b) -> { v.retTerm(Term.compare(v.argT(b), v.argT(b + 1))); return true; });
        def(vm, "java/lang/Long.compare", (v, m, b) -> { v.retTerm(Term.compare(v.argT(b), v.argT(b + 2))); return true; });
        def(vm, "java/lang/Character.compare", (v, m, b) -> { v.retTerm(Term.sub(v.argT(b), v.argT(b + 1))); return true; });
        def(vm, "java/lang/Boolean.compare", (v, m, b) -> { v.retTerm(Term.sub(v.argT(b), v.argT(b + 1))); return true; });
        def(vm, "java/lang/Double.compare", (v, m, b) -> {
            if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b);
            SDouble x = v.dbl(b), y = v.dbl(b + 2); int k = Math.max(x.k, y.k);
            v.retTerm(Term.compare(scaleD(x, k), scaleD(y, k))); return true;
        });
        def(vm, "java/lang/Double.isNaN(D)Z", (v, m, b) -> { if (v.R[b] == null) return hostOr(v, m, b); v.retPrim(0); return true; });
        def(vm, "java/lang/Double.isInfinite(D)Z", (v, m, b) -> { if (v.R[b] == null) return hostOr(v, m, b); v.retPrim(0); return true; });
        def(vm, "java/lang/Double.toString(D)Ljava/lang/String;", (v, m, b) -> { if (v.R[b] == null) return hostOr(v, m, b); v.ret(doubleString(v, (SDouble) v.R[b])); return true; });
        Nat intStr = (v, m, b) -> { if (v.R[b] == null) return hostOr(v, m, b); v.ret(numStr(v, (Term) v.R[b], 0)); return true; };
        def(vm, "java/lang/Integer.toString(I)Ljava/lang/String;", intStr);
        def(vm, "java/lang/Long.toString(J)Ljava/lang/String;", intStr);
        def(vm, "java/lang/Integer.parseInt(Ljava/lang/String;)I", (v, m, b) -> numParse(v, m, b, Term.I_MIN, Term.I_MAX));
        def(vm, "java/lang/Integer.parseInt(Ljava/lang/String;I)I", (v, m, b) -> numParse(v, m, b, Term.I_MIN, Term.I_MAX));
        def(vm, "java/lang/Long.parseLong(Ljava/lang/String;)J", (v, m, b) -> numParse(v, m, b, Term.L_MIN, Term.L_MAX));
        def(vm, "java/lang/Long.parseLong(Ljava/lang/String;I)J", (v, m, b) -> numParse(v, m, b, Term.L_MIN, Term.L_MAX));
        // ---- Math
        for (String t : new String[]{"I", "J"}) {
            int w = t.equals("I") ? 1 : 2;
            boolean wide = w == 2;
            def(vm, "java/lang/Math.max(" + t + t + ")" + t, (v, m, b) -> { Term x = v.argT(b), y = v.argT(b + w); v.retTerm(Term.ite(Term.ge(x, y), x, y)); return true; });
            def(vm, "java/lang/Math.min(" + t + t + ")" + t, (v, m, b) -> { Term x = v.argT(b), y = v.argT(b + w); v.retTerm(Term.ite(Term.le(x, y), x, y)); return true; });
            def(vm, "java/lang/Math.abs(" + t + ")" + t, (v, m, b) -> { Term x = v.argT(b); v.retTerm(Term.wrap(abs(x), wide ? 64 : 32)); return true; });
            def(vm, "java/lang/Math.addExact(" + t + t + ")" + t, (v, m, b) -> { exact(v, m, Term.add(v.argT(b), v.argT(b + w)), wide); return true; });
            def(vm, "java/lang/Math.subtractExact(" + t + t + ")" + t, (v, m, b) -> { exact(v, m, Term.sub(v.argT(b), v.argT(b + w)), wide); return true; });
            def(vm, "java/lang/Math.multiplyExact(" + t + t + ")" + t, (v, m, b) -> { exact(v, m, Term.mul(v.argT(b), v.argT(b + w)), wide); return true; });
            def(vm, "java/lang/Math.negateExact(" + t + ")" + t, (v, m, b) -> { exact(v, m, Term.neg(v.argT(b)), wide); return true; });
            def(vm, "java/lang/Math.incrementExact(" + t + ")" + t, (v, m, b) -> { exact(v, m, Term.add(v.argT(b), Term.c(1)), wide); return true; });
            def(vm, "java/lang/Math.decrementExact(" + t + ")" + t, (v, m, b) -> { exact(v, m, Term.sub(v.argT(b), Term.c(1)), wide); return true; });
            String cl = wide ? "Long" : "Integer";
            def(vm, "java/lang/" + cl + ".signum(" + t + ")I", (v, m, b) -> { v.retTerm(Term.compare(v.argT(b), Term.c(0))); return true; });
        }
        def(vm, "java/lang/Math.multiplyExact(JI)J", (v, m, b) -> { exact(v, m, Term.mul(v.argT(b), v.argT(b + 2)), true); return true; });
        def(vm, "java/lang/Math.toIntExact(J)I", (v, m, b) -> { exact(v, m, v.argT(b), false); return true; });
        def(vm, "java/lang/Math.floorMod(JI)I", (v, m, b) -> { if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b); if (v.R[b + 2] == null && v.P[b + 2] > 0) { v.retTerm(Term.mod(v.argT(b), v.argT(b + 2))); return true; } return false; });
        def(vm, "java/lang/Math.floorMod(JJ)J", (v, m, b) -> { if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b); if (v.R[b + 2] == null && v.P[b + 2] > 0) { v.retTerm(Term.mod(v.argT(b), v.argT(b + 2))); return true; } return false; });
        def(vm, "java/lang/Math.floorDiv(JI)J", (v, m, b) -> { if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b); if (v.R[b + 2] == null && v.P[b + 2] > 0) { v.retTerm(Term.div(v.argT(b), v.argT(b + 2))); return true; } return false; });
        def(vm, "java/lang/Math.floorDiv(JJ)J", (v, m, b) -> { if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b); if (v.R[b + 2] == null && v.P[b + 2] > 0) { v.retTerm(Term.div(v.argT(b), v.argT(b + 2))); return true; } return false; });
        Nat pow = (v, m, b) -> {
            if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b);
            SDouble x = v.dbl(b), y = v.dbl(b + 2);
            if (y.k != 0) throw new Unsupported("pow with a fractional exponent");
            int n = v.path.pick(y.n).intValueExact();
            if (n == 0) { v.retPrim(Double.doubleToRawLongBits(1.0)); return true; }
            if (n < 0 || n > 8) throw new Unsupported("pow exponent " + n);
            Term r = Term.c(1);
            for (int k = 0; k < n; k++) r = Term.mul(r, x.n);
            BigInteger lim = BigInteger.ONE.shiftLeft(53);
            if (r.lo.abs().max(r.hi.abs()).compareTo(lim) > 0) {
                if (!v.path.branch(inRange(r, lim.negate(), lim))) throw new Unsupported("pow result beyond 2^53");
                r = Term.clampCopy(r, lim.negate(), lim);
            }
            v.retR = new SDouble(r, x.k * n); v.retP = 0;
            return true;
        };
        def(vm, "java/lang/Math.pow(DD)D", pow);
        def(vm, "java/lang/StrictMath.pow(DD)D", pow);
        for (String f : new String[]{"floor", "ceil", "rint"}) def(vm, "java/lang/Math." + f + "(D)D", (v, m, b) -> {
            if (v.R[b] == null) return hostOr(v, m, b);
            SDouble x = v.dbl(b);
            retD(v, new SDouble(divRound(v, x.n, Term.c(BigInteger.ONE.shiftLeft(x.k)), f.equals("floor") ? RoundingMode.FLOOR : f.equals("ceil") ? RoundingMode.CEILING : RoundingMode.HALF_EVEN), 0)); return true;
        });
        def(vm, "java/lang/Math.round(D)J", (v, m, b) -> {
            if (v.R[b] == null) return hostOr(v, m, b);
            SDouble x = v.dbl(b);
            v.retTerm(d2x(new SDouble(Term.div(Term.add(Term.mul(x.n, Term.c(2)), Term.c(BigInteger.ONE.shiftLeft(x.k))), Term.c(BigInteger.ONE.shiftLeft(x.k + 1))), 0), Term.L_MIN, Term.L_MAX)); return true;
        });
        for (String f : new String[]{"max", "min"}) def(vm, "java/lang/Math." + f + "(DD)D", (v, m, b) -> {
            if (v.R[b] == null && v.R[b + 2] == null) return hostOr(v, m, b);
            SDouble x = v.dbl(b), y = v.dbl(b + 2); int k = Math.max(x.k, y.k);
            retD(v, v.path.branch(Term.ge(scaleD(x, k), scaleD(y, k))) == f.equals("max") ? x : y); return true;
        });
        def(vm, "java/lang/Double.parseDouble(Ljava/lang/String;)D", (v, m, b) -> { if (v.R[b] != null && v.hostString(v.R[b]) != null) return hostOr(v, m, b); retD(v, parseDouble(v, v.R[b])); return true; });
        def(vm, "java/lang/Math.abs(D)D", (v, m, b) -> { if (v.R[b] == null) return hostOr(v, m, b); SDouble x = v.dbl(b); v.retR = new SDouble(abs(x.n), x.k); return true; });
        // ---- characters
        for (String f : new String[]{"isDigit", "isLetter", "isLetterOrDigit", "isWhitespace", "isUpperCase", "isLowerCase", "isAlphabetic", "isSpaceChar", "isJavaIdentifierPart", "isJavaIdentifierStart", "isISOControl", "getNumericValue", "getType"})
            charFn(vm, f, false);
        for (String f : new String[]{"toLowerCase", "toUpperCase"}) charFn(vm, f, true);
        def(vm, "java/lang/Character.valueOf(C)Ljava/lang/Character;", (v, m, b) -> { v.ret(v.R[b] == null && v.P[b] < 128 ? v.lift((char) v.P[b]) : boxed(v, Type.CHAR_TYPE, b)); return true; });
        Nat digit = (v, m, b) -> {
            if (v.R[b] == null) return hostOr(v, m, b);
            int radix = cint(v, b + 1);
            v.retTerm(digitTerm(v, (Term) v.R[b], radix));
            return true;
        };
        def(vm, "java/lang/Character.digit(CI)I", digit);
        def(vm, "java/lang/Character.digit(II)I", digit);
        def(vm, "java/lang/CharacterDataLatin1.equalsIgnoreCase(BB)Z", (v, m, b) -> {
            if (v.R[b] == null && v.R[b + 1] == null) return false;
            Term x = Term.mod(v.argT(b), Term.c(256)), y = Term.mod(v.argT(b + 1), Term.c(256));
            v.retBool(Term.eq(mapChar(v, x, c -> Character.toLowerCase(Character.toUpperCase(c)), true), mapChar(v, y, c -> Character.toLowerCase(Character.toUpperCase(c)), true)));
            return true;
        });
        // ---- strings
        def(vm, "java/lang/String.equals(Ljava/lang/Object;)Z", (v, m, b) -> { v.retBool(strEq(v, v.R[b], v.R[b + 1])); return true; });
        Nat cmp = (v, m, b) -> {
            Object y = v.R[b + 1];
            if (y == null) throw v.npe();
            if (v.classOf(y) != v.stringCI) throw v.exc("java/lang/ClassCastException", "not a String");
            String hx = v.hostString(v.R[b]), hy = v.hostString(y);
            if (hx != null && hy != null) v.retPrim(hx.compareTo(hy));
            else if (lazy(v.R[b]) && (hy != null || lazy(y)) || lazy(y) && hx != null) {
                // texts of numbers: whether they are equal needs no digits; their order is not encoded (Smt rejects the sign variable)
                Term sign = v.path.newVar("~order" + v.path.vars.size(), BigInteger.ZERO, BigInteger.ONE);
                v.retTerm(Term.ite(strEq(v, v.R[b], y), Term.c(0), Term.ite(Term.eq(sign, Term.c(0)), Term.c(-1), Term.c(1))));
            } else v.retTerm(strCmp(v, v.R[b], y));
            return true;
        };
        def(vm, "java/lang/String.compareTo(Ljava/lang/String;)I", cmp);
        def(vm, "java/lang/String.compareTo(Ljava/lang/Object;)I", cmp);
        def(vm, "java/lang/String.hashCode()I", (v, m, b) -> {
            String h = v.hostString(v.R[b]);
            if (h != null) { v.retPrim(h.hashCode()); return true; }
            Term r = Term.c(0);
            for (Term t : chars(v, v.R[b])) r = Term.add(Term.mul(r, Term.c(31)), t);
            v.retTerm(Term.wrap32(r)); return true;
        });
        def(vm, "java/lang/String.startsWith(Ljava/lang/String;)Z", (v, m, b) -> affix(v, m, b, true));
        def(vm, "java/lang/String.endsWith(Ljava/lang/String;)Z", (v, m, b) -> affix(v, m, b, false));
        def(vm, "java/lang/String.toString()Ljava/lang/String;", (v, m, b) -> { v.ret(v.R[b]); return true; });
        def(vm, "java/lang/String.intern", (v, m, b) -> { String h = v.hostString(v.R[b]); v.ret(h != null ? h.intern() : v.R[b]); return true; });
        Nat caseless = (v, m, b) -> {
            if (v.R[b] instanceof NumStr) { v.ret(v.R[b]); return true; }
            String h = v.hostString(v.R[b]);
            boolean low = m.name.equals("toLowerCase");
            Locale loc = m.desc.startsWith("()") && v.path.locale != null && v.curM != null && v.curM.owner.name.startsWith(Vm.REPO) ? v.path.locale : Locale.ROOT;
            if (m.desc.startsWith("(L")) { Object l = v.lower(v.R[b + 1]); if (l instanceof Locale) loc = (Locale) l; }
            if (h != null) { v.ret(low ? h.toLowerCase(loc) : h.toUpperCase(loc)); return true; }
            if (!loc.equals(Locale.ROOT) && !loc.getLanguage().equals("en")) throw new Unsupported("case mapping in the locale " + loc);
            Term[] cs = chars(v, v.R[b]);
            for (int k = 0; k < cs.length; k++) {
                for (int ch = cs[k].lo.intValue(); ch <= cs[k].hi.intValue(); ch++) { // one character for one, whatever stands around it
                    String one = String.valueOf((char) ch), to = low ? one.toLowerCase(Locale.ROOT) : one.toUpperCase(Locale.ROOT);
                    if (ch == 0x3a3 || ch >= 0x300 && ch < 0x370 || Character.isSurrogate((char) ch) || to.length() != 1 || to.charAt(0) != (low ? Character.toLowerCase((char) ch) : Character.toUpperCase((char) ch)))
                        throw new Unsupported("case mapping of " + ch);
                }
                cs[k] = mapChar(v, cs[k], low ? Character::toLowerCase : Character::toUpperCase, true);
            }
            v.ret(ofChars(v, cs)); return true;
        };
        def(vm, "java/lang/String.toLowerCase", caseless);
        def(vm, "java/lang/String.toUpperCase", caseless);
        def(vm, "java/util/Locale.getDefault()Ljava/util/Locale;", (v, m, b) -> {
            if (v.path.locale == null || v.curM == null || !v.curM.owner.name.startsWith(Vm.REPO)) return false;
            v.ret(v.lift(v.path.locale)); return true;
        });
        def(vm, "java/lang/String.concat", (v, m, b) -> { if (v.R[b + 1] == null) throw v.npe(); v.ret(concat(v, Arrays.asList(v.R[b], v.R[b + 1]))); return true; });
        def(vm, "java/lang/String.valueOf(C)Ljava/lang/String;", (v, m, b) -> { v.ret(strOf(v, Type.CHAR_TYPE, b)); return true; });
        def(vm, "java/lang/StringLatin1.newString", (v, m, b) -> {
            Arr a = (Arr) v.R[b];
            if (v.R[b + 1] != null || v.R[b + 2] != null) return false;
            if (!a.filled) v.fill(a);
            int off = (int) v.P[b + 1], n = (int) v.P[b + 2];
            if (n == 0) { v.ret(""); return true; }
            if (off < 0 || n < 0 || off + n > a.len) return false;
            if (a.r != null) for (int k = off; k < off + n; k++) if (a.r[k] != null) return false;
            char[] cs = new char[n];
            for (int k = 0; k < n; k++) cs[k] = (char) (a.p[off + k] & 0xff);
            v.ret(new String(cs)); return true;
        });
        Nat fmt = (v, m, b) -> {
            int o = m.args.length == 3 ? 1 : 0;
            String f = v.hostString(v.R[b + o]);
            Arr a = (Arr) v.R[b + o + 1];
            if (f == null || a == null) { v.ret("<format>"); return true; }
            if (!a.filled) v.fill(a);
            Object[] h = new Object[a.len];
            for (int k = 0; k < a.len; k++) {
                Object x = a.r[k];
                Object l = v.lower(x);
                if (l == Vm.NOPE) {
                    // only exception messages are built from such arguments; the text is not part of any claim
                    l = "<" + v.classOf(x).name + ">";
                }
                h[k] = l;
            }
            String r;
            try { r = String.format(f, h); } catch (IllegalFormatException e) { r = "<format " + f + ">"; }
            v.ret(r); return true;
        };
        def(vm, "java/lang/String.format(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;", fmt);
        def(vm, "java/lang/String.formatted", fmt);
        Nat appendNum = (v, m, b) -> {
            if (v.R[b + 1] == null) return false;
            Object s = m.args[0].getSort() == Type.DOUBLE ? doubleString(v, (SDouble) v.R[b + 1]) : numStr(v, (Term) v.R[b + 1], 0);
            v.ret(v.callVirtual(v.R[b], "append", "(Ljava/lang/String;)Ljava/lang/" + v.classOf(v.R[b]).name.substring(10) + ";", s));
            return true;
        };
        for (String sb : new String[]{"StringBuilder", "StringBuffer", "AbstractStringBuilder"}) for (String t : new String[]{"I", "J", "D"})
            def(vm, "java/lang/" + sb + ".append(" + t + ")Ljava/lang/" + sb + ";", appendNum);
        // ---- hash based collections: numerically equal keys share a bucket
        def(vm, "java/util/HashMap.hash", Natives::mapHash);
        // the table index follows from it: one path per value
        def(vm, "java/util/concurrent/ConcurrentHashMap.spread", (v, m, b) -> { int h = cint(v, b); v.retPrim((h ^ (h >>> 16)) & 0x7fffffff); return true; });
        def(vm, "java/util/Objects.hashCode", (v, m, b) -> false);
        // ---- Unsafe
        installUnsafe(vm);
        // ---- clock
        def(vm, "java/time/LocalTime.create", (v, m, b) -> {
            if (v.R[b] == null && v.R[b + 1] == null && v.R[b + 2] == null && v.R[b + 3] == null) return false;
            Obj t = new Obj(v.cls("java/time/LocalTime")); // never one of the 24 shared hours: only its identity could tell
            String[] f = {"hour", "minute", "second", "nano"};
            for (int k = 0; k < 4; k++) put(t, f[k], v.R[b + k] == null ? Term.c((int) v.P[b + k]) : (Term) v.R[b + k]);
            v.ret(t); return true;
        });
        def(vm, "java/time/LocalDate.now", (v, m, b) -> { v.ret(elsewhere(v, m, b) ? nextDay(v) : nowDate(v)); return true; });
        def(vm, "java/time/LocalDateTime.now", (v, m, b) -> { v.ret(elsewhere(v, m, b) ? dateTime(v, nextDay(v), symTime(v, "now")) : nowDateTime(v)); return true; });
        installDateOps(vm);
        def(vm, "java/time/LocalDate.parse", (v, m, b) -> dateParse(v, m, b, false));
        def(vm, "java/time/LocalDateTime.parse", (v, m, b) -> dateParse(v, m, b, true));
        def(vm, "java/time/format/DateTimeFormatter.parse(Ljava/lang/CharSequence;Ljava/time/temporal/TemporalQuery;)Ljava/lang/Object;", (v, m, b) -> {
            if (!(v.R[b + 2] instanceof LambdaObj)) return false;
            Handle h = ((LambdaObj) v.R[b + 2]).impl;
            String n = h.getOwner() + "." + h.getName();
            if (!n.equals("java/time/LocalDate.from") && !n.equals("java/time/LocalDateTime.from")) return false;
            Object f = v.R[b];
            v.R[b] = v.R[b + 1]; v.R[b + 1] = f;
            return dateParse(v, m, b, n.contains("Time"));
        });
        def(vm, "java/util/logging/Logger.getLogger", (v, m, b) -> { v.ret(new Obj(v.cls("java/util/logging/Logger"))); return true; });
        def(vm, "java/util/logging/Logger.isLoggable", (v, m, b) -> { v.retPrim(0); return true; });
        for (String s : new String[]{"log", "logp", "severe", "warning", "info", "config", "fine", "finer", "finest", "entering", "exiting", "throwing"}) def(vm, "java/util/logging/Logger." + s, (v, m, b) -> true);
        // ---- ANTLR / Caffeine environment
        def(vm, "org/antlr/v4/runtime/CharStreams.fromString", Natives::charStream);
        def(vm, "org/antlr/v4/runtime/ConsoleErrorListener.syntaxError", (v, m, b) -> true);
        def(vm, "org/antlr/v4/runtime/atn/LexerATNSimulator.getExistingTargetState", (v, m, b) -> {
            if (v.R[b + 2] == null) return false;
            v.ret(null); return true;
        });
        def(vm, "org/antlr/v4/runtime/atn/LexerATNSimulator.addDFAEdge(Lorg/antlr/v4/runtime/dfa/DFAState;ILorg/antlr/v4/runtime/dfa/DFAState;)V", (v, m, b) -> v.R[b + 2] != null);
        def(vm, "com/github/benmanes/caffeine/cache/Caffeine.newBuilder", (v, m, b) -> { v.ret(new Obj(v.cls("com/github/benmanes/caffeine/cache/Caffeine"))); return true; });
        for (String s : new String[]{"maximumSize", "initialCapacity", "expireAfterAccess", "expireAfterWrite", "recordStats", "softValues", "weakKeys", "weakValues", "maximumWeight", "executor"})
            def(vm, "com/github/benmanes/caffeine/cache/Caffeine." + s, (v, m, b) -> { v.ret(v.R[b]); return true; });
        def(vm, "com/github/benmanes/caffeine/cache/Caffeine.build", (v, m, b) -> {
            if (m.args.length != 0) throw new Unsupported("loading cache");
            ClassInfo c = v.cls("sx/models/CacheModel");
            v.ensureInit(c);
            Obj o = new Obj(c);
            v.call(c.methods.get("<init>()V"), o);
            v.ret(o); return true;
        });
        SymNatives.install(vm);
    }

    private static Term digitTerm(Vm v, Term t, int radix) {
        int lo = t.lo.intValueExact(), hi = t.hi.intValueExact();
        Term acc = null;
        for (int k = lo; k <= hi; ) {
            int d = Character.digit(k, radix), e = k;
            if (d < 0) while (e + 1 <= hi && Character.digit(e + 1, radix) < 0) e++;
            else while (e + 1 <= hi && Character.digit(e + 1, radix) == d + (e + 1 - k)) e++;
            Term val = d < 0 ? Term.c(-1) : e == k ? Term.c(d) : Term.clampCopy(Term.add(t, Term.c(d - k)), BigInteger.valueOf(d), BigInteger.valueOf(d + e - k));
            acc = acc == null ? val : Term.ite(Term.ge(t, Term.c(k)), val, acc);
            k = e + 1;
        }
        return acc;
    }

    private static boolean hostOr(Vm v, MethodInfo m, int b) {
        if (m.hostMethod == null) hostNat(v, m);
        return m.hostMethod != null && hostCall(v, m, b);
    }

    private static void charFn(Vm vm, String f, boolean offset) {
        for (String t : new String[]{"C", "I"}) {
            Method hm;
            try { hm = Character.class.getMethod(f, t.equals("C") ? char.class : int.class); } catch (NoSuchMethodException e) { continue; }
            String rd = Type.getDescriptor(hm.getReturnType());
            def(vm, "java/lang/Character." + f + "(" + t + ")" + rd, (v, m, b) -> {
                if (v.R[b] == null) return hostOr(v, m, b);
                v.retTerm(mapChar(v, (Term) v.R[b], c -> {
                    try { return (int) Vm.primBits(hm.invoke(null, t.equals("C") ? (Object) (char) c : (Object) c)); } catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
                }, offset));
                return true;
            });
        }
    }

    private static boolean numParse(Vm v, MethodInfo m, int b, BigInteger lo, BigInteger hi) {
        Object s = v.R[b];
        if (s == null) return false;
        if (v.hostString(s) != null) return hostOr(v, m, b);
        if (m.args.length == 2 && (v.R[b + 1] != null || v.P[b + 1] != 10)) return false;
        Term t;
        if (s instanceof NumStr && !((NumStr) s).materialised) {
            NumStr n = (NumStr) s;
            if (n.scale > 0) throw v.exc("java/lang/NumberFormatException", "<symbolic>");
            t = n.u;
        } else {
            noWideDigits(v, s);
            Arr a = v.bytesOf(s);
            for (int k = 0; k < a.len; k++) { // a decimal point is malformed here
                Term c = Vm.byteTerm(a, k);
                if (v.path.branch(Term.eq(c, Term.c('.')))) throw v.exc("java/lang/NumberFormatException", "<symbolic>");
            }
            t = (Term) parseInteger(v, s);
        }
        if (!v.path.branch(inRange(t, lo, hi))) throw v.exc("java/lang/NumberFormatException", "<symbolic>");
        v.retTerm(Term.clampCopy(t, lo, hi));
        return true;
    }
    private static Term parseInteger(Vm vm, Object s) {
        noWideDigits(vm, s);
        Arr a = vm.bytesOf(s);
        Path p = vm.path;
        int k = 0;
        boolean neg = false;
        if (a.len == 0) throw vm.exc("java/lang/NumberFormatException", "empty");
        Term c0 = Vm.byteTerm(a, 0);
        if (p.branch(Term.eq(c0, Term.c('-')))) { neg = true; k++; }
        else if (p.branch(Term.eq(c0, Term.c('+')))) k++;
        if (k == a.len) throw vm.exc("java/lang/NumberFormatException", "<symbolic>");
        Term u = Term.c(0);
        for (; k < a.len; k++) {
            Term c = Vm.byteTerm(a, k);
            if (!p.branch(Term.and(Term.ge(c, Term.c('0')), Term.le(c, Term.c('9'))))) throw vm.exc("java/lang/NumberFormatException", "<symbolic>");
            u = Term.add(Term.mul(u, Term.c(10)), Term.clampCopy(Term.sub(c, Term.c('0')), BigInteger.ZERO, BigInteger.valueOf(9)));
        }
        return neg ? Term.neg(u) : u;
    }

    private static boolean affix(Vm v, MethodInfo m, int b, boolean start) {
        Object x = v.R[b], y = v.R[b + 1];
        if (y == null) throw v.npe();
        String hx = v.hostString(x), hy = v.hostString(y);
        if (hx != null && hy != null) { v.retPrim((start ? hx.startsWith(hy) : hx.endsWith(hy)) ? 1 : 0); return true; }
        if (hy != null && hy.isEmpty()) { v.retPrim(1); return true; }
        if (x instanceof NumStr && !((NumStr) x).materialised && hy != null && !hy.matches("[-0-9.]+")) { v.retPrim(0); return true; }
        Term[] a = chars(v, x), c = chars(v, y);
        if (c.length > a.length) { v.retPrim(0); return true; }
        Term r = Term.TRUE;
        int off = start ? 0 : a.length - c.length;
        for (int k = 0; k < c.length; k++) r = Term.and(r, Term.eq(a[off + k], c[k]));
        v.retBool(r);
        return true;
    }

    private static final Set<String> FLAT = new HashSet<>(Arrays.asList("java/lang/Integer", "java/lang/Long", "java/lang/Short", "java/lang/Byte", "java/lang/Double",
        "java/lang/Float", "java/lang/Character", "java/lang/Boolean", "java/math/BigDecimal", "java/math/BigInteger", "java/time/LocalDate", "java/time/LocalDateTime", "java/time/LocalTime"));
    private static boolean mapHash(Vm v, MethodInfo m, int b) {
        Object k = v.R[b];
        if (k == null) { v.retPrim(0); return true; }
        if (k instanceof String || v.classOf(k) == v.stringCI) {
            String h = v.hostString(k);
            if (v.stringHashZero) { v.retPrim(0); return true; }
            if (h == null) throw new Unsupported("symbolic string as a hash key");
            int x = h.hashCode();
            v.retPrim(x ^ (x >>> 16)); return true;
        }
        if (FLAT.contains(v.classOf(k).name)) { v.retPrim(0); return true; }
        Object h = v.callVirtual(k, "hashCode", "()I");
        if (h instanceof Term) { v.retPrim(0); throw new Unsupported("symbolic hash code"); }
        int x = (int) (long) (Long) h;
        v.retPrim(x ^ (x >>> 16));
        return true;
    }

    static String simple(ClassInfo c) {
        if (c.array) return simple(c.comp) + "[]";
        if (c.primitive) return Vm.primName(c.name);
        String n = c.name.substring(c.name.lastIndexOf('/') + 1);
        n = n.substring(n.lastIndexOf('$') + 1);
        while (!n.isEmpty() && Character.isDigit(n.charAt(0))) n = n.substring(1);
        return n;
    }

    private static boolean arraycopy(Vm v, MethodInfo m, int b) {
        Arr s = (Arr) v.R[b], d = (Arr) v.R[b + 2];
        if (s == null || d == null) throw v.npe();
        if (!s.filled) v.fill(s);
        if (!d.filled) v.fill(d);
        v.wrote(d);
        int so = cint(v, b + 1), dof = cint(v, b + 3), n = cint(v, b + 4);
        if (so < 0 || dof < 0 || n < 0 || so + n > s.len || dof + n > d.len) throw v.exc("java/lang/ArrayIndexOutOfBoundsException", "arraycopy");
        if (s.cls.comp.primitive != d.cls.comp.primitive || s.cls.comp.primitive && s.cls != d.cls) throw v.exc("java/lang/ArrayStoreException", "arraycopy");
        if (s.cls.comp.primitive) {
            System.arraycopy(s.p, so, d.p, dof, n);
            if (s.r != null) {
                if (d.r == null) d.r = new Object[d.len];
                System.arraycopy(s.r, so, d.r, dof, n);
            } else if (d.r != null) Arrays.fill(d.r, dof, dof + n, null);
        } else {
            if (d.cls.comp != v.objectCI && d.cls != s.cls)
                for (int k = 0; k < n; k++) { Object o = s.r[so + k]; if (o != null && !v.classOf(o).isSubOf(d.cls.comp)) throw v.exc("java/lang/ArrayStoreException", "arraycopy"); }
            System.arraycopy(s.r, so, d.r, dof, n);
        }
        return true;
    }

    private static boolean charStream(Vm v, MethodInfo m, int b) {
        Object s = v.R[b];
        if (s == null) throw v.npe();
        if (!v.isLatin1(s)) {
            Term[] cs = chars(v, s);
            Arr w = new Arr(v.cls("[C"), cs.length);
            w.r = new Object[cs.length];
            for (int k = 0; k < cs.length; k++) {
                if (cs[k].hi.intValue() >= 0xd800 && cs[k].lo.intValue() < 0xe000) {
                    if (!cs[k].isConst()) throw new Unsupported("symbolic surrogates");
                    return false;
                }
                if (cs[k].isConst()) w.p[k] = cs[k].k.longValue(); else w.r[k] = cs[k];
            }
            ClassInfo c = v.cls("org/antlr/v4/runtime/CodePointCharStream$CodePoint16BitCharStream");
            v.ensureInit(c);
            Obj o = new Obj(c);
            o.p[c.slot("size")] = w.len;
            o.r[c.slot("name")] = "<unknown>";
            o.p[c.slot("position")] = 0;
            o.r[c.slot("charArray")] = w;
            v.ret(o);
            return true;
        }
        Arr a = v.bytesOf(s);
        Arr bytes = new Arr(a.cls, a.len);
        System.arraycopy(a.p, 0, bytes.p, 0, a.len);
        if (a.r != null) bytes.r = a.r.clone();
        ClassInfo c = v.cls("org/antlr/v4/runtime/CodePointCharStream$CodePoint8BitCharStream");
        v.ensureInit(c);
        Obj o = new Obj(c);
        o.p[c.slot("size")] = a.len;
        o.r[c.slot("name")] = "<unknown>";
        o.p[c.slot("position")] = 0;
        o.r[c.slot("byteArray")] = bytes;
        v.ret(o);
        return true;
    }

    // ------------------------------------------------------------------ dates
    static Obj date(Vm v, Term y, Term mo, Term d) {
        ClassInfo c = v.cls("java/time/LocalDate");
        Obj o = new Obj(c);
        put(o, "year", y); put(o, "month", mo); put(o, "day", d);
        return o;
    }
    static void put(Obj o, String f, Term t) {
        int s = o.cls.slot(f);
        if (t.isConst()) { o.p[s] = t.k.longValue(); o.r[s] = null; } else o.r[s] = t;
    }
    static Term daysIn(Term y, Term m) {
        Term leap = Term.or(Term.and(Term.eq(Term.mod(y, Term.c(4)), Term.c(0)), Term.not(Term.eq(Term.mod(y, Term.c(100)), Term.c(0)))), Term.eq(Term.mod(y, Term.c(400)), Term.c(0)));
        Term t30 = Term.or(Term.or(Term.eq(m, Term.c(4)), Term.eq(m, Term.c(6))), Term.or(Term.eq(m, Term.c(9)), Term.eq(m, Term.c(11))));
        return Term.ite(Term.eq(m, Term.c(2)), Term.ite(leap, Term.c(29), Term.c(28)), Term.ite(t30, Term.c(30), Term.c(31)));
    }
    private static Term dig(Vm v, String name, int lo, int hi) { return v.path.newVar(name, BigInteger.valueOf(lo), BigInteger.valueOf(hi)); }
    private static Term ten(Term hi, Term lo) { return Term.add(Term.mul(hi, Term.c(10)), lo); }
    /** a date whose digits are the variables, so that its text and its numbers share terms */
    static Obj symDate(Vm v, String name, int y0, int y1) {
        Term y = ten(ten(ten(dig(v, name + ".y3", y0 / 1000, y1 / 1000), dig(v, name + ".y2", 0, 9)), dig(v, name + ".y1", 0, 9)), dig(v, name + ".y0", 0, 9));
        Term m = ten(dig(v, name + ".m1", 0, 1), dig(v, name + ".m0", 0, 9));
        Term d = ten(dig(v, name + ".d1", 0, 3), dig(v, name + ".d0", 0, 9));
        v.path.assume(Term.and(Term.ge(y, Term.c(y0)), Term.le(y, Term.c(y1))));
        v.path.assume(Term.and(Term.ge(m, Term.c(1)), Term.le(m, Term.c(12))));
        v.path.assume(Term.and(Term.ge(d, Term.c(1)), Term.le(d, daysIn(y, m))));
        return date(v, y, m, d);
    }
    static Obj symTime(Vm v, String name) {
        Obj t = new Obj(v.cls("java/time/LocalTime"));
        Term h = ten(dig(v, name + ".H1", 0, 2), dig(v, name + ".H0", 0, 9));
        v.path.assume(Term.le(h, Term.c(23)));
        put(t, "hour", h);
        put(t, "minute", ten(dig(v, name + ".M1", 0, 5), dig(v, name + ".M0", 0, 9)));
        put(t, "second", ten(dig(v, name + ".S1", 0, 5), dig(v, name + ".S0", 0, 9)));
        return t;
    }
    private static Term fld(Vm v, Obj o, String f) {
        if (!o.filled) v.fill(o);
        int s = o.cls.slot(f);
        return o.r[s] instanceof Term ? (Term) o.r[s] : Term.c(o.p[s]);
    }
    private static Obj sub(Vm v, Obj o, String f) { if (!o.filled) v.fill(o); return (Obj) o.r[o.cls.slot(f)]; }
    private static boolean concreteDate(Vm v, Object o) { return v.lower(o) != Vm.NOPE; }
    /** LocalDate.compareTo0 */
    private static Term dateCmp(Vm v, Obj a, Obj b) {
        Term y = Term.sub(fld(v, a, "year"), fld(v, b, "year")), m = Term.sub(fld(v, a, "month"), fld(v, b, "month")), d = Term.sub(fld(v, a, "day"), fld(v, b, "day"));
        return Term.ite(Term.eq(y, Term.c(0)), Term.ite(Term.eq(m, Term.c(0)), d, m), y);
    }
    private static Term dateTimeCmp(Vm v, Obj a, Obj b) {
        Term d = dateCmp(v, sub(v, a, "date"), sub(v, b, "date"));
        Obj s = sub(v, a, "time"), t = sub(v, b, "time");
        Term r = Term.c(0);
        for (String f : new String[]{"nano", "second", "minute", "hour"}) {
            Term x = fld(v, s, f), y = fld(v, t, f);
            r = Term.ite(Term.eq(x, y), r, Term.ite(Term.lt(x, y), Term.c(-1), Term.c(1)));
        }
        return Term.ite(Term.eq(d, Term.c(0)), r, d);
    }
    private static void installDateOps(Vm vm) {
        for (int k = 0; k < 2; k++) {
            boolean time = k == 1;
            String c = time ? "java/time/LocalDateTime" : "java/time/LocalDate";
            for (String n : new String[]{"compareTo", "isBefore", "isAfter", "isEqual", "equals"}) {
                def(vm, c + "." + n, (v, m, b) -> {
                    Object x = v.R[b], y = v.R[b + 1];
                    if (x == null) throw v.npe();
                    if (n.equals("equals") && (y == null || !v.classOf(y).name.equals(c))) { v.retPrim(0); return true; }
                    if (y == null || !v.classOf(y).name.equals(c)) return false; // the class's own code decides
                    Term t = time ? dateTimeCmp(v, (Obj) x, (Obj) y) : dateCmp(v, (Obj) x, (Obj) y);
                    Term z = Term.c(0);
                    switch (n) {
                        case "compareTo": v.retTerm(t); break;
                        case "isBefore": v.retBool(Term.lt(t, z)); break;
                        case "isAfter": v.retBool(Term.gt(t, z)); break;
                        default: v.retBool(Term.eq(t, z));
                    }
                    return true;
                });
            }
        }
        def(vm, "java/time/LocalDate.toString", (v, m, b) -> {
            Obj x = (Obj) v.R[b];
            if (x == null) throw v.npe();
            Object low = v.lower(x);
            if (low != Vm.NOPE) { v.ret(low.toString()); return true; }
            Term y = fld(v, x, "year"), mo = fld(v, x, "month"), d = fld(v, x, "day");
            if (y.lo.intValueExact() < 1000 || y.hi.intValueExact() > 9999) return false;
            Term ten = Term.c(10);
            Term[] cs = {Term.div(y, Term.c(1000)), Term.mod(Term.div(y, Term.c(100)), ten), Term.mod(Term.div(y, ten), ten), Term.mod(y, ten), null,
                Term.div(mo, ten), Term.mod(mo, ten), null, Term.div(d, ten), Term.mod(d, ten)};
            Arr a = new Arr(v.cls("[B"), 10);
            a.r = new Object[10];
            for (int k = 0; k < 10; k++) {
                if (cs[k] == null) { a.p[k] = '-'; continue; }
                Term t = Term.wrap(Term.add(cs[k], Term.c(48)), 8);
                if (t.isConst()) a.p[k] = t.k.longValue(); else a.r[k] = t;
            }
            v.ret(v.symString(a)); return true;
        });
    }
    static Obj dateTime(Vm v, Obj d, Obj t) {
        Obj o = new Obj(v.cls("java/time/LocalDateTime"));
        o.r[o.cls.slot("date")] = d; o.r[o.cls.slot("time")] = t;
        return o;
    }
    static Obj nowDate(Vm v) { v.path.covers.add("clock read"); return symDate(v, "now", 1990, 2060); }
    static Obj nowDateTime(Vm v) { return dateTime(v, nowDate(v), symTime(v, "now")); }

    private static Obj nextDay(Vm v) { return (Obj) v.callVirtual(nowDate(v), "plusDays", "(J)Ljava/time/LocalDate;", 1L); }
    /** the clock of a time zone other than the machine's may show the next day */
    private static boolean elsewhere(Vm v, MethodInfo m, int b) {
        if (m.args.length == 0) return false;
        Object z = v.R[b];
        if (z == null) throw v.npe();
        if (v.classOf(z).name.startsWith("java/time/Clock$")) {
            ClassInfo c = v.classOf(z);
            if (!c.name.equals("java/time/Clock$SystemClock")) throw new Unsupported("clock " + c.name);
            z = ((Obj) z).r[c.slot("zone")];
        }
        Object h = v.lower(z);
        if (h == Vm.NOPE) throw new Unsupported("time zone");
        if (java.time.ZoneId.systemDefault().equals(h)) return false;
        Integer k = v.path.choices.get("elsewhere");
        return (k == null ? v.path.choose("elsewhere", 2) : k) == 1;
    }

    private static boolean dateParse(Vm v, MethodInfo m, int b, boolean withTime) {
        Object s = v.R[b];
        if (s == null) throw v.npe();
        Object h = v.classOf(s) == v.stringCI ? v.hostString(s) : v.lower(s);
        java.time.format.DateTimeFormatter f = null;
        if (m.args.length == 2) {
            Object fo = v.lower(v.R[b + 1]);
            if (fo == Vm.NOPE) throw new Unsupported("formatter");
            if (fo == null) throw v.npe();
            f = (java.time.format.DateTimeFormatter) fo;
        }
        if (h != null && h != Vm.NOPE) {
            CharSequence cs = (CharSequence) h;
            try {
                Object r = withTime ? (f == null ? java.time.LocalDateTime.parse(cs) : java.time.LocalDateTime.parse(cs, f)) : (f == null ? java.time.LocalDate.parse(cs) : java.time.LocalDate.parse(cs, f));
                v.ret(v.lift(r)); return true;
            } catch (java.time.DateTimeException e) { throw v.exc(e.getClass().getName().replace('.', '/'), e.getMessage()); }
        }
        if (s instanceof NumStr) {
            if (f == null || f.toString().contains("'-'")) throw v.exc("java/time/format/DateTimeParseException", "<symbolic>");
            throw new Unsupported("date parse of number text");
        }
        String k = f == null ? (withTime ? "isodt" : "iso") : f.toString().replace("Value(Year,4,10,", "Value(Year,4,19,") + "/" + f.getResolverStyle();
        String D = "Value(YearOfEra,4,19,EXCEEDS_PAD)'-'Value(MonthOfYear,2)'-'Value(DayOfMonth,2)";
        String D2 = "Value(Year,4,19,EXCEEDS_PAD)'-'Value(MonthOfYear,2)'-'Value(DayOfMonth,2)";
        String T = "' 'Value(HourOfDay,2)':'Value(MinuteOfHour,2)':'Value(SecondOfMinute,2)";
        boolean era = k.startsWith("Value(YearOfEra"), strict = k.equals("iso") || k.endsWith("/STRICT");
        if (!(!withTime && k.equals("iso")) && !k.equals((era ? D : D2) + (withTime ? T : "") + (strict ? "/STRICT" : "/SMART"))) throw new Unsupported("date format " + k);
        if (!v.isLatin1(s)) throw v.exc("java/time/format/DateTimeParseException", "<symbolic>");
        Arr a = v.bytesOf(s);
        // longer years carry a sign in these formats, so the length is fixed for unsigned text
        int len = withTime ? 19 : 10;
        Term ok = Term.bool(a.len == len);
        if (a.len > len) { // a signed year makes the text longer
            Term c0 = Term.mod(Vm.byteTerm(a, 0), Term.c(256));
            if (v.path.branch(Term.or(Term.eq(c0, Term.c('+')), Term.eq(c0, Term.c('-'))))) throw new Unsupported("signed year");
        }
        Term[] n = new Term[len];
        for (int i = 0; i < len && a.len == len; i++) {
            Term c = Term.mod(Vm.byteTerm(a, i), Term.c(256));
            int sep = i == 4 || i == 7 ? '-' : i == 10 ? ' ' : i == 13 || i == 16 ? ':' : 0;
            if (sep != 0) ok = Term.and(ok, Term.eq(c, Term.c(sep)));
            else { ok = Term.and(ok, Term.and(Term.ge(c, Term.c('0')), Term.le(c, Term.c('9')))); n[i] = Term.sub(c, Term.c('0')); }
        }
        if (!v.path.branch(ok)) throw v.exc("java/time/format/DateTimeParseException", "<symbolic>");
        if (era && strict) throw v.exc("java/time/format/DateTimeParseException", "<no era>");
        Term y = ten(ten(ten(n[0], n[1]), n[2]), n[3]), mo = ten(n[5], n[6]), d = ten(n[8], n[9]);
        Term days = daysIn(y, mo), good = Term.and(Term.and(Term.ge(mo, Term.c(1)), Term.le(mo, Term.c(12))), Term.and(Term.ge(d, Term.c(1)), Term.le(d, Term.c(31))));
        if (strict) good = Term.and(good, Term.le(d, days));
        if (era) good = Term.and(good, Term.ge(y, Term.c(1)));
        Term ho = null, mi = null, se = null;
        if (withTime) {
            ho = ten(n[11], n[12]); mi = ten(n[14], n[15]); se = ten(n[17], n[18]);
            good = Term.and(good, Term.and(Term.le(ho, Term.c(23)), Term.and(Term.le(mi, Term.c(59)), Term.le(se, Term.c(59)))));
        }
        if (withTime && !strict && v.path.branch(Term.and(Term.eq(ho, Term.c(24)), Term.and(Term.eq(mi, Term.c(0)), Term.eq(se, Term.c(0)))))) throw new Unsupported("24:00:00");
        if (!v.path.branch(good)) throw v.exc("java/time/format/DateTimeParseException", "<symbolic>");
        if (!strict && !v.path.implied(Term.le(d, days))) d = Term.ite(Term.le(d, days), d, days);
        Obj r = date(v, y, mo, d);
        if (withTime) {
            Obj t = new Obj(v.cls("java/time/LocalTime"));
            put(t, "hour", ho); put(t, "minute", mi); put(t, "second", se);
            r = dateTime(v, r, t);
        }
        v.ret(r);
        return true;
    }

    // ------------------------------------------------------------------ Unsafe
    private static FieldInfo byOffset(Vm v, Obj o, long off) {
        ClassInfo c = o.cls;
        if (c.byOffset == null) {
            c.byOffset = new TreeMap<>();
            for (FieldInfo f : c.inst) {
                try {
                    Class<?> h = v.hostClass(f.owner);
                    if (h == null) continue;
                    c.byOffset.put(Vm.U.objectFieldOffset(h.getDeclaredField(f.name)), f);
                } catch (ReflectiveOperationException | UnsupportedOperationException e) { /* not addressable */ }
            }
        }
        FieldInfo f = c.byOffset.get(off);
        if (f == null) throw new Unsupported("unsafe offset " + off + " in " + c);
        return f;
    }
    private static int arrIndex(Arr a, long off) {
        Class<?> k;
        switch (a.cls.comp.primitive ? a.cls.comp.name.charAt(0) : 'L') {
            case 'I': k = int[].class; break; case 'J': k = long[].class; break; case 'B': k = byte[].class; break; case 'C': k = char[].class; break;
            case 'Z': k = boolean[].class; break; case 'S': k = short[].class; break; case 'D': k = double[].class; break; case 'F': k = float[].class; break;
            default: k = Object[].class;
        }
        return (int) ((off - Vm.U.arrayBaseOffset(k)) / Vm.U.arrayIndexScale(k));
    }
    private static void uget(Vm v, int b) {
        Object o = v.R[b + 1];
        if (v.R[b + 2] != null) throw new Unsupported("symbolic unsafe offset");
        long off = v.P[b + 2];
        if (o instanceof Arr) {
            Arr a = (Arr) o;
            if (!a.filled) v.fill(a);
            int i = arrIndex(a, off);
            v.retP = a.p == null ? 0 : a.p[i]; v.retR = a.r == null ? null : a.r[i];
        } else {
            Obj x = (Obj) o;
            if (!x.filled) v.fill(x);
            FieldInfo f = byOffset(v, x, off);
            v.retP = x.p[f.slot]; v.retR = x.r[f.slot];
        }
    }
    private static void uput(Vm v, Object o, long off, long p, Object r) {
        v.wrote(o);
        if (o instanceof Arr) {
            Arr a = (Arr) o;
            if (!a.filled) v.fill(a);
            int i = arrIndex(a, off);
            if (a.p != null) { a.p[i] = p; if (r != null && a.r == null) a.r = new Object[a.len]; if (a.r != null) a.r[i] = r; } else a.r[i] = r;
        } else {
            Obj x = (Obj) o;
            if (!x.filled) v.fill(x);
            FieldInfo f = byOffset(v, x, off);
            x.p[f.slot] = p; x.r[f.slot] = r;
        }
    }
    static void installUnsafe(Vm vm) {
        String U = "jdk/internal/misc/Unsafe.";
        for (String t : new String[]{"Reference", "Int", "Long", "Boolean", "Object", "Byte", "Short", "Char"}) {
            int w = t.equals("Long") ? 2 : 1;
            for (String s : new String[]{"", "Volatile", "Acquire", "Opaque"}) {
                def(vm, U + "get" + t + s, (v, m, b) -> { if (v.R[b + 1] == null) throw new Unsupported("raw memory"); uget(v, b); return true; });
            }
            for (String s : new String[]{"", "Volatile", "Release", "Opaque"}) {
                def(vm, U + "put" + t + s, (v, m, b) -> { if (v.R[b + 1] == null) throw new Unsupported("raw memory"); if (v.R[b + 2] != null) throw new Unsupported("symbolic unsafe offset"); uput(v, v.R[b + 1], v.P[b + 2], v.P[b + 4], v.R[b + 4]); return true; });
            }
            for (String s : new String[]{"compareAndSet", "weakCompareAndSet"}) for (String z : new String[]{"", "Plain", "Acquire", "Release"}) {
                def(vm, U + s + t + z, (v, m, b) -> {
                    uget(v, b);
                    boolean same;
                    if (t.equals("Reference") || t.equals("Object")) same = v.retR == v.R[b + 4];
                    else {
                        if (v.retR != null || v.R[b + 4] != null) throw new Unsupported("symbolic CAS");
                        same = v.retP == v.P[b + 4];
                    }
                    if (same) uput(v, v.R[b + 1], v.P[b + 2], v.P[b + 4 + w], v.R[b + 4 + w]);
                    v.retPrim(same ? 1 : 0);
                    return true;
                });
            }
        }
        def(vm, U + "arrayBaseOffset0", (v, m, b) -> { v.retPrim(Vm.U.arrayBaseOffset(v.hostClass(of(v, v.R[b + 1])))); return true; });
        def(vm, U + "arrayIndexScale0", (v, m, b) -> { v.retPrim(Vm.U.arrayIndexScale(v.hostClass(of(v, v.R[b + 1])))); return true; });
        def(vm, U + "objectFieldOffset(Ljava/lang/Class;Ljava/lang/String;)J", (v, m, b) -> {
            try { v.retPrim(Vm.U.objectFieldOffset(v.hostClass(of(v, v.R[b + 1])).getDeclaredField(v.hostString(v.R[b + 2])))); } catch (ReflectiveOperationException e) { throw new Unsupported("offset " + e); }
            return true;
        });
        for (String f : new String[]{"fullFence", "loadFence", "storeFence", "registerNatives", "ensureClassInitialized0", "park", "unpark"}) def(vm, U + f, (v, m, b) -> true);
        def(vm, "java/util/concurrent/atomic/AtomicReference.get", (v, m, b) -> { Obj o = (Obj) v.R[b]; if (!o.filled) v.fill(o); v.ret(o.r[o.cls.slot("value")]); return true; });
        for (String f : new String[]{"set", "lazySet", "setPlain", "setRelease"}) def(vm, "java/util/concurrent/atomic/AtomicReference." + f, (v, m, b) -> { Obj o = (Obj) v.R[b]; v.wrote(o); o.r[o.cls.slot("value")] = v.R[b + 1]; return true; });
        def(vm, "java/util/concurrent/atomic/AtomicReference.compareAndSet", (v, m, b) -> { Obj o = (Obj) v.R[b]; v.wrote(o); int s = o.cls.slot("value"); boolean e = o.r[s] == v.R[b + 1]; if (e) o.r[s] = v.R[b + 2]; v.retPrim(e ? 1 : 0); return true; });
        def(vm, "java/util/concurrent/atomic/AtomicReference.getAndSet", (v, m, b) -> { Obj o = (Obj) v.R[b]; v.wrote(o); int s = o.cls.slot("value"); Object old = o.r[s]; o.r[s] = v.R[b + 1]; v.ret(old); return true; });
        def(vm, "java/util/concurrent/atomic/AtomicBoolean.compareAndSet", (v, m, b) -> { Obj o = (Obj) v.R[b]; v.wrote(o); int s = o.cls.slot("value"); if (o.r[s] != null || v.R[b + 1] != null || v.R[b + 2] != null) throw new Unsupported("symbolic CAS"); boolean e = o.p[s] == v.P[b + 1]; if (e) o.p[s] = v.P[b + 2]; v.retPrim(e ? 1 : 0); return true; });
        for (String f : new String[]{"Lock.lock", "Lock.unlock"}) def(vm, "java/util/concurrent/locks/Reentrant" + f, (v, m, b) -> true);
        def(vm, "java/lang/ref/Reference.get", (v, m, b) -> { Obj o = (Obj) v.R[b]; if (!o.filled) v.fill(o); v.ret(o.r[o.cls.slot("referent")]); return true; });
        def(vm, "java/lang/ref/Reference.refersTo", (v, m, b) -> { Obj o = (Obj) v.R[b]; if (!o.filled) v.fill(o); v.retPrim(o.r[o.cls.slot("referent")] == v.R[b + 1] ? 1 : 0); return true; });
        def(vm, "java/lang/ref/Reference.refersToImpl", vm.nats.get("java/lang/ref/Reference.refersTo"));
        def(vm, "java/lang/ref/ReferenceQueue.poll", (v, m, b) -> { v.ret(null); return true; });
        def(vm, "java/lang/ref/Finalizer.register", (v, m, b) -> true);
    }
}
