package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.LinkedHashMap;
import java.util.Map;
import sx.Sym;

/** Sums, differences and products of integers are exact; a result beyond 64 bits is a failure, never another number. */
public class C13 {
    static final BigDecimal MIN = new BigDecimal(Long.MIN_VALUE), MAX = new BigDecimal(Long.MAX_VALUE);
    static Object integer(String n) { return Sym.choose(n + ".long", 2) == 0 ? (Object) Sym.anyInt(n) : (Object) Sym.anyLong(n); }
    static BigDecimal apply(String op, BigDecimal x, BigDecimal y) {
        return op.equals("+") ? x.add(y) : op.equals("-") ? x.subtract(y) : x.multiply(y);
    }
    static boolean fits(BigDecimal v) { return Sym.and(v.compareTo(MIN) >= 0, v.compareTo(MAX) <= 0); }
    /** exact, or a failure exactly when the value does not fit in 64 bits */
    static void exactOrFail(Try<Object> r, BigDecimal expected, String tag) {
        boolean ok = fits(expected);
        if (r.isFailure()) { Sym.check(Sym.not(ok), tag + ": fails only beyond 64 bits"); Sym.cover("overflow"); return; }
        Sym.check(ok, tag + ": fails beyond 64 bits");
        H.checkNum(r, expected, tag);
        Object v = r.get();
        Sym.check(v instanceof Integer || v instanceof Long, tag + ": result is an int or a long");
        Sym.cover("evaluated");
    }
    /** two fields of any integer type */
    public static void fields() {
        Object x = integer("x"), y = integer("y");
        String op = H.pick("op", "+", "-", "*");
        Sym.bound("all int and long values, in a flat or a nested map");
        exactOrFail(H.arith("x " + op + " m.y", H.data("x", x, "m", H.data("y", y))), apply(op, H.dec(x), H.dec(y)), "integer " + op);
    }
    /** the same operand twice */
    public static void sameOperand() {
        Object x = integer("x");
        String op = H.pick("op", "+", "-", "*");
        exactOrFail(H.arith("x " + op + " x", H.data("x", x)), apply(op, H.dec(x), H.dec(x)), "integer " + op + " itself");
    }
    /** a literal on either side */
    public static void literals() {
        Object x = integer("x");
        String op = H.pick("op", "+", "-", "*");
        int[] lens = {1, 4, 9, 10, 12, 18};
        String k = H.digits("k", lens[Sym.choose("len", Sym.thorough() ? 6 : 5)]);
        BigDecimal v = new BigDecimal(k);
        Sym.bound("literals of 1, 4, 9, 10 and 12 digits; thorough: 18");
        if (Sym.choose("side", 2) == 0) exactOrFail(H.arith("x " + op + " " + k, H.data("x", x)), apply(op, H.dec(x), v), "integer " + op + " literal");
        else exactOrFail(H.arith(k + " " + op + " x", H.data("x", x)), apply(op, v, H.dec(x)), "literal " + op + " integer");
    }
    /** two literals */
    public static void twoLiterals() {
        String op = H.pick("op", "+", "-", "*");
        int[] lens = {1, 3, 9, 10, 17};
        String k = H.digits("k", lens[Sym.choose("kl", 5)]), l = H.digits("l", lens[Sym.choose("ll", 5)]);
        String sp = H.pick("sp", " ", "");
        if (sp.isEmpty()) sp = op.equals("-") ? " " : sp;
        exactOrFail(H.arith(k + sp + op + sp + l, H.data()), apply(op, new BigDecimal(k), new BigDecimal(l)), "literal " + op + " literal");
    }
    /** three operands, grouped by parentheses: exact wherever every intermediate value fits */
    public static void grouped() {
        Object x = integer("x");
        int y = Sym.anyInt("y"), z = Sym.anyInt("z");
        String o = H.pick("o", "+", "-", "*"), p = H.pick("p", "+", "-", "*");
        boolean left = Sym.choose("left", 2) == 0;
        BigDecimal X = H.dec(x), Y = H.dec(y), Z = H.dec(z);
        BigDecimal inner = left ? apply(o, X, Y) : apply(p, Y, Z), v = left ? apply(p, inner, Z) : apply(o, X, inner);
        Try<Object> r = H.arith(left ? "(x " + o + " y) " + p + " z" : "x " + o + " (y " + p + " z)", H.data("x", x, "y", y, "z", z));
        boolean ok = Sym.and(fits(inner), fits(v));
        if (r.isFailure()) { Sym.check(Sym.not(ok), "grouped: fails only beyond 64 bits"); return; }
        Sym.check(ok, "grouped: fails beyond 64 bits");
        H.checkNum(r, v, "grouped " + o + p);
        Sym.cover("evaluated");
    }
    /** inside a comparison the exact value is compared */
    public static void compared() {
        int x = Sym.anyInt("x"), y = Sym.anyInt("y"), z = Sym.anyInt("z");
        String o = H.pick("o", "+", "-", "*"), c = H.pick("cmp", H.OPS);
        H.checkBool(H.bool("(x " + o + " y) " + c + " z", H.data("x", x, "y", y, "z", z)), H.holds(c, apply(o, H.dec(x), H.dec(y)).compareTo(H.dec(z))), "comparison of an integer " + o);
        Sym.cover("evaluated");
    }
    /** the field values are found under any name and depth, and absent ones never count as zero */
    public static void depth() {
        int x = Sym.anyInt("x");
        long y = Sym.anyLong("y", -1000000000000L, 1000000000000L);
        Map<String, Object> deep = H.data("y", y);
        for (int k = 0; k < 3; k++) { Map<String, Object> m = new LinkedHashMap<>(); m.put("m", deep); deep = m; }
        deep.put("x", x);
        H.checkNum(H.arith("x + m.m.m.y", deep), H.dec(x).add(H.dec(y)), "sum of a deeply nested field");
        H.fails(H.arith("x + m.m.y", deep), "absent nested operand fails");
        Sym.cover("evaluated");
    }
}
