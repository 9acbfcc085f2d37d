package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import sx.Sym;

/** Division keeps three digits and truncates; modulus is the remainder with the sign of the dividend. */
public class C14 {
    /** q is a / b truncated towards zero to three digits: stated without dividing */
    static boolean quotient(BigDecimal q, BigDecimal a, BigDecimal b) {
        BigDecimal r = a.subtract(q.multiply(b));
        // |r| < |b| / 1000 and r has the sign of a or is zero
        boolean small = r.multiply(new BigDecimal(1000)).abs().compareTo(b.abs()) < 0;
        return Sym.and(small, Sym.or(r.signum() == 0, r.signum() == a.signum()));
    }
    static void divided(Try<Object> r, BigDecimal a, BigDecimal b, String tag) {
        Sym.check(Sym.iff(r.isFailure(), b.signum() == 0), tag + ": fails exactly when dividing by zero");
        if (r.isFailure()) { Sym.cover("division by zero"); return; }
        Object v = r.get();
        Sym.check(H.isNumber(v), tag + ": result is a number");
        BigDecimal q = H.dec(v);
        Sym.check(q.scale() <= 3, tag + ": at most three digits after the point");
        Sym.check(quotient(q, a, b), tag);
        Sym.cover("evaluated");
    }
    static Object operand(String n, boolean literalToo) {
        switch (Sym.choose(n + ".kind", 3)) {
            case 0: return Sym.anyInt(n);
            case 1: return Sym.anyLong(n);
            default: return Sym.anyDecimal(n, 2, -100000000L, 100000000L);
        }
    }
    /** constant divisors, any dividend */
    public static void byLiteral() {
        Object x = operand("x", false);
        String k = H.pick("k", "1", "2", "3", "7", "10", "64", "1000", "0.5", "2.5", "0.007", "2147483648", "99999999999");
        Sym.bound("12 literal divisors; dividends: all ints, all longs, decimals with two digits");
        divided(H.arith("x / " + k, H.data("x", x)), H.dec(x), new BigDecimal(k), "quotient by " + k);
    }
    /** fields on both sides */
    public static void fields() {
        int lim = Sym.thorough() ? 100000 : 1000;
        int a = Sym.anyInt("a", -lim, lim), b = Sym.anyInt("b", -12, 12);
        Sym.bound("dividend within 1000 (thorough: 100000), divisor within 12");
        divided(H.arith("a / b", H.data("a", a, "b", b)), H.dec(a), H.dec(b), "quotient of ints");
    }
    public static void decimalFields() {
        BigDecimal a = Sym.anyDecimal("a", 2, -10000, 10000), b = Sym.anyDecimal("b", 1, -9, 9);
        divided(H.arith("a / b", H.data("a", a, "b", b)), a, b, "quotient of decimals");
    }
    public static void literalByField() {
        String k = H.pick("k", "1", "100", "7", "12.5", "0", "4294967296");
        int b = Sym.anyInt("b", -12, 12);
        divided(H.arith(k + " / b", H.data("b", b)), new BigDecimal(k), H.dec(b), "quotient of a literal");
    }
    public static void doubles() {
        double a = Sym.anyDouble("a", 2, -4000, 4000);
        String k = H.pick("k", "2", "3", "0.5");
        divided(H.arith("a / " + k, H.data("a", a)), H.dec(a), new BigDecimal(k), "quotient of a double");
    }
    /** r is the remainder: |r| < |b|, sign of a, a - r a multiple of b */
    static void remainder(Try<Object> r, long a, long b, String tag) {
        Sym.check(Sym.iff(r.isFailure(), b == 0), tag + ": fails exactly for divisor zero");
        if (r.isFailure()) { Sym.cover("modulus by zero"); return; }
        H.checkNum(r, new BigDecimal(a % b), tag);
        Sym.cover("evaluated");
    }
    public static void modulusByLiteral() {
        boolean l = Sym.choose("long", 2) == 1;
        Object x = l ? (Object) Sym.anyLong("x") : (Object) Sym.anyInt("x");
        String k = H.pick("k", "1", "2", "7", "10", "97", "1000000007", "2147483647", "4294967296");
        long v = l ? (Long) x : (Integer) x, m = Long.parseLong(k);
        Try<Object> r = H.arith("x % " + k, H.data("x", x));
        Sym.check(r.isSuccess(), "modulus: evaluation succeeds");
        BigDecimal q = H.dec(r.get());
        // stated without the remainder operation: |q| < m, the sign of x, and x - q is a multiple of m
        Sym.check(q.abs().compareTo(new BigDecimal(m)) < 0, "remainder is smaller than the divisor");
        Sym.check(Sym.or(q.signum() == 0, q.signum() == Long.signum(v)), "remainder has the sign of the dividend");
        H.checkNum(r, new BigDecimal(v % m), "remainder by " + k);
        Sym.cover("evaluated");
    }
    public static void modulusFields() {
        int lim = Sym.thorough() ? 100000 : 1000;
        int a = Sym.anyInt("a", -lim, lim), b = Sym.anyInt("b", -12, 12);
        int t = Sym.choose("types", 4);
        remainder(H.arith("a % b", H.data("a", (t & 1) == 0 ? (Object) a : (Object) (long) a, "b", (t & 2) == 0 ? (Object) b : (Object) (long) b)), a, b, "remainder of fields");
    }
    /** a = (a / b truncated) * b + a % b, through the expression language itself */
    public static void divisionIdentity() {
        int a = Sym.anyInt("a");
        String k = H.pick("k", "1", "2", "3", "7", "10", "1000");
        H.checkNum(H.arith("(int(a / " + k + ") * " + k + ") + (a % " + k + ")", H.data("a", a)), H.dec(a), "division identity for " + k);
        Sym.cover("evaluated");
    }
    /** decimals have no modulus, text neither */
    public static void modulusTypes() {
        BigDecimal a = Sym.anyDecimal("a", 1, -1000, 1000);
        int b = Sym.anyInt("b");
        H.fails(H.arith("a % b", H.data("a", a, "b", b)), "modulus of a decimal fails");
        H.fails(H.arith("b % 2.5", H.data("b", b)), "modulus by a decimal fails");
        Sym.cover("evaluated");
    }
    /** quotients compared */
    public static void compared() {
        int a = Sym.anyInt("a");
        String k = H.pick("k", "2", "3", "10"), c = H.pick("cmp", H.OPS);
        int z = Sym.anyInt("z");
        // floor(|a|*1000/k) with the sign of a, over 1000
        long n = (long) Math.abs((long) a) * 1000 / Long.parseLong(k);
        H.checkBool(H.bool("(a / " + k + ") " + c + " z", H.data("a", a, "z", z)), H.holds(c, Long.compare(a < 0 ? -n : n, 1000L * z)), "comparison of a quotient");
        Sym.cover("evaluated");
    }
}
