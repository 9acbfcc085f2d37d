package sx;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.*;

/** The harness vocabulary as symbolic operations, and the rendering of observed values under a model. */
final class SymNatives {
    private static String str(Vm v, int slot) {
        String s = v.hostString(v.R[slot]);
        if (s == null) throw new Unsupported("symbolic name");
        return s;
    }
    private static Term boolArg(Vm v, int slot) { return Term.boolOf(v.argT(slot)); }
    private static void def(Vm vm, String n, Nat f) { vm.nats.put("sx/Sym." + n, f); }

    static void install(Vm vm) {
        def(vm, "anyInt(Ljava/lang/String;)I", (v, m, b) -> { v.retTerm(v.path.newVar(str(v, b), Term.I_MIN, Term.I_MAX)); return true; });
        def(vm, "anyInt(Ljava/lang/String;II)I", (v, m, b) -> { v.retTerm(v.path.newVar(str(v, b), BigInteger.valueOf(v.P[b + 1]), BigInteger.valueOf(v.P[b + 2]))); return true; });
        def(vm, "anyLong(Ljava/lang/String;)J", (v, m, b) -> { v.retTerm(v.path.newVar(str(v, b), Term.L_MIN, Term.L_MAX)); return true; });
        def(vm, "anyLong(Ljava/lang/String;JJ)J", (v, m, b) -> { v.retTerm(v.path.newVar(str(v, b), BigInteger.valueOf(v.P[b + 1]), BigInteger.valueOf(v.P[b + 3]))); return true; });
        def(vm, "anyBool", (v, m, b) -> { v.retTerm(v.path.newVar(str(v, b), BigInteger.ZERO, BigInteger.ONE)); return true; });
        def(vm, "anyDecimal", (v, m, b) -> {
            Term t = v.path.newVar(str(v, b), BigInteger.valueOf(v.P[b + 2]), BigInteger.valueOf(v.P[b + 4]));
            v.ret(Natives.mk(v, t, (int) v.P[b + 1])); return true;
        });
        def(vm, "anyDouble", (v, m, b) -> {
            Term t = v.path.newVar(str(v, b), BigInteger.valueOf(v.P[b + 2]), BigInteger.valueOf(v.P[b + 4]));
            v.retR = new SDouble(t, (int) v.P[b + 1]); v.retP = 0; return true;
        });
        def(vm, "anyString", (v, m, b) -> {
            String name = str(v, b), al = str(v, b + 2);
            int n = (int) v.P[b + 1];
            if (v.R[b + 1] != null) n = v.path.pick((Term) v.R[b + 1]).intValueExact();
            if (n == 0) { v.ret(""); return true; }
            int lo = Sym.min(al), hi = Sym.max(al);
            Term[] cs = new Term[n];
            for (int k = 0; k < n; k++) {
                Term t = v.path.newVar(name + "." + k, BigInteger.valueOf(lo), BigInteger.valueOf(hi));
                Term in = Term.FALSE;
                for (int c = lo; c <= hi; ) {
                    if (al.indexOf(c) < 0) { c++; continue; }
                    int e = c;
                    while (e + 1 <= hi && al.indexOf(e + 1) >= 0) e++;
                    in = Term.or(in, Term.and(Term.ge(t, Term.c(c)), Term.le(t, Term.c(e))));
                    c = e + 1;
                }
                v.path.assume(in);
                cs[k] = t;
            }
            v.ret(Natives.ofChars(v, cs)); return true;
        });
        def(vm, "anyDate", (v, m, b) -> { v.ret(Natives.symDate(v, str(v, b), (int) v.P[b + 1], (int) v.P[b + 2])); return true; });
        def(vm, "anyDateTime", (v, m, b) -> { String n = str(v, b); v.ret(Natives.dateTime(v, Natives.symDate(v, n, (int) v.P[b + 1], (int) v.P[b + 2]), Natives.symTime(v, n))); return true; });
        def(vm, "choose", (v, m, b) -> {
            if (v.R[b + 1] != null) throw new Unsupported("symbolic choice count");
            v.retPrim(v.path.choose(str(v, b), (int) v.P[b + 1])); return true;
        });
        def(vm, "today", (v, m, b) -> { v.ret(Natives.nowDate(v)); return true; });
        def(vm, "now", (v, m, b) -> { v.ret(Natives.nowDateTime(v)); return true; });
        def(vm, "and", (v, m, b) -> { v.retBool(Term.and(boolArg(v, b), boolArg(v, b + 1))); return true; });
        def(vm, "or", (v, m, b) -> { v.retBool(Term.or(boolArg(v, b), boolArg(v, b + 1))); return true; });
        def(vm, "not", (v, m, b) -> { v.retBool(Term.not(boolArg(v, b))); return true; });
        def(vm, "iff", (v, m, b) -> { v.retBool(Term.iff(boolArg(v, b), boolArg(v, b + 1))); return true; });
        def(vm, "implies", (v, m, b) -> { v.retBool(Term.or(Term.not(boolArg(v, b)), boolArg(v, b + 1))); return true; });
        def(vm, "assume", (v, m, b) -> { v.path.assume(boolArg(v, b)); return true; });
        def(vm, "check", (v, m, b) -> { v.path.check(boolArg(v, b), str(v, b + 1), ""); return true; });
        def(vm, "cover", (v, m, b) -> { v.path.covers.add(str(v, b)); return true; });
        def(vm, "observe", (v, m, b) -> { v.path.observations.add(new Object[]{str(v, b), v.R[b + 1]}); return true; });
        def(vm, "bound", (v, m, b) -> { v.path.bounds.add(str(v, b)); return true; });
        def(vm, "thorough", (v, m, b) -> { v.retPrim(v.path.thorough ? 1 : 0); return true; });
        def(vm, "locale", (v, m, b) -> { v.path.locale = Locale.forLanguageTag(str(v, b)); return true; });
        def(vm, "concurrently", (v, m, b) -> { v.concurrently(str(v, b), v.R[b + 1], v.R[b + 2]); return true; });
        def(vm, "hashZero", (v, m, b) -> { v.stringHashZero = true; return true; });
    }

    // ---- rendering, mirroring Sym.render
    static String render(Vm v, Object o, Term.Model md) {
        if (o == null) return "null";
        if (o instanceof String) return (String) o;
        if (o instanceof BigDec) {
            BigDec b = (BigDec) o;
            if (b.v != null) return "BigDecimal:" + b.v;
            BigDecimal d = new BigDecimal(Term.evalInt(b.u, md), b.scale);
            if (b.stripped) { d = d.stripTrailingZeros(); if (d.scale() < b.floor) d = d.setScale(b.floor); }
            return "BigDecimal:" + d;
        }
        if (o instanceof BigInt) { BigInt b = (BigInt) o; return "BigInteger:" + (b.v != null ? b.v : Term.evalInt(b.t, md)); }
        if (o instanceof NumStr && !((NumStr) o).materialised) {
            NumStr n = (NumStr) o;
            return new BigDecimal(Term.evalInt(n.u, md), n.scale).toPlainString();
        }
        if (!(o instanceof Obj)) return ((Ref) o).cls.name.replace('/', '.');
        Obj x = (Obj) o;
        if (x.cls == v.stringCI) {
            String h = v.hostString(x);
            if (h != null) return h;
            StringBuilder sb = new StringBuilder();
            for (Term c : Natives.chars(v, x)) sb.append((char) Term.evalInt(c, md).intValue());
            return sb.toString();
        }
        Object low = v.lower(x);
        if (low != Vm.NOPE && !(low instanceof Class)) return Sym.render(low);
        switch (x.cls.name) {
            case "java/lang/Integer": case "java/lang/Long": case "java/lang/Short": case "java/lang/Byte":
                return x.cls.name.substring(10) + ":" + Term.evalInt((Term) v.boxSym(x), md);
            case "java/lang/Boolean": return "Boolean:" + (Term.evalInt((Term) v.boxSym(x), md).signum() != 0);
            case "java/lang/Character": return "Character:" + (char) Term.evalInt((Term) v.boxSym(x), md).intValue();
            case "java/lang/Double": {
                SDouble d = (SDouble) v.boxSym(x);
                return "Double:" + new BigDecimal(Term.evalInt(d.n, md)).divide(new BigDecimal(BigInteger.ONE.shiftLeft(d.k))).doubleValue();
            }
            case "java/time/LocalDate": return "LocalDate:" + ldate(x, md);
            case "java/time/LocalDateTime": {
                Obj t = (Obj) x.r[x.cls.slot("time")];
                if (!t.filled) v.fill(t);
                return "LocalDateTime:" + ldate((Obj) x.r[x.cls.slot("date")], md).atTime(f(t, "hour", md), f(t, "minute", md), f(t, "second", md), f(t, "nano", md));
            }
            default:
        }
        if (x.cls.isSubOf(v.cls("java/lang/Enum"))) return v.hostString(x.r[x.cls.slot("name")]);
        return x.cls.name.replace('/', '.');
    }
    private static int f(Obj o, String n, Term.Model md) {
        int s = o.cls.slot(n);
        return o.r[s] instanceof Term ? Term.evalInt((Term) o.r[s], md).intValueExact() : (int) o.p[s];
    }
    private static java.time.LocalDate ldate(Obj x, Term.Model md) {
        if (!x.filled) x.cls.vm.fill(x);
        return java.time.LocalDate.of(f(x, "year", md), f(x, "month", md), f(x, "day", md));
    }
}
