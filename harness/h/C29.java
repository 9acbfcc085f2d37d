package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.util.Map;
import sx.Sym;

/** x ^ n is the n-fold product. */
public class C29 {
    private static void power(Try<Object> r, BigDecimal x, int n, String tag) {
        BigDecimal v = BigDecimal.ONE;
        for (int i = 0; i < n; i++) v = v.multiply(x);
        H.checkNum(r, v, tag);
        Sym.cover("evaluated");
    }
    private static final int[] LIM = {1 << 30, 1 << 30, 1 << 26, 1 << 17, 8000, 1500, 450, 180, 98};
    /** a literal exponent and an integer base */
    public static void integers() {
        int n = Sym.choose("n", Sym.thorough() ? 9 : 6);
        int x = Sym.anyInt("x", -LIM[n], LIM[n]);
        Sym.bound("exponents 0 to 5 (thorough: 8) with results below 2^53; 7 binary fractions with exponents 0 to 3");
        power(H.arith("x ^ " + n, H.data("x", x)), H.dec(x), n, "integer power");
        power(H.arith("x ^ y", H.data("x", (long) x, "y", n)), H.dec(x), n, "power of fields");
    }
    private static final long[] LIML = {1L << 53, 1L << 53, 94906265L, 208063L, 9741L, 1552L, 456L, 190L, 98L};
    /** long bases up to the largest whose power is below 2^53 */
    public static void longs() {
        int n = Sym.choose("n", Sym.thorough() ? 9 : 5);
        long x = Sym.anyLong("x", -LIML[n], LIML[n]);
        power(H.arith("x ^ " + n, H.data("x", x)), H.dec(x), n, "long power");
        power(H.arith("x ^ y", H.data("x", x, "y", (long) n)), H.dec(x), n, "power of long fields");
    }
    public static void literalBase() {
        int b = 2 + Sym.choose("b", 9), n = Sym.choose("n", 53);
        if (b > 2 && n * Math.log(b) >= 53 * Math.log(2)) { Sym.cover("evaluated"); return; }
        Sym.bound("literal bases 2 to 10 with every exponent that keeps the power below 2^53");
        power(H.arith(b + " ^ " + n, H.data()), new BigDecimal(b), n, "literal power");
        power(H.arith(b + " ^ n", H.data("n", n)), new BigDecimal(b), n, "literal to the power of a field");
    }
    /** fractions whose powers are representable */
    public static void halves() {
        BigDecimal x = new BigDecimal(new String[]{"0.5", "1.5", "2.5", "-0.5", "2.25", "-1.75", "100.125"}[Sym.choose("x", 7)]);
        int n = Sym.choose("n", 4);
        power(H.arith("x ^ " + n, H.data("x", x)), H.dec(x), n, "power of a binary fraction");
    }
    /** binds tighter than products and sums; from left to right */
    public static void precedence() {
        int a = Sym.anyInt("a", -1000, 1000), b = Sym.anyInt("b", -1000, 1000);
        Map<String, Object> d = H.data("a", a, "b", b);
        BigDecimal A = H.dec(a), B = H.dec(b);
        H.checkNum(H.arith("a + b ^ 2", d), A.add(B.multiply(B)), "a + b ^ 2");
        H.checkNum(H.arith("a * b ^ 2", d), A.multiply(B.multiply(B)), "a * b ^ 2");
        H.checkNum(H.arith("a ^ 2 - b", d), A.multiply(A).subtract(B), "a ^ 2 - b");
        H.checkNum(H.arith("(a - b) ^ 2", d), A.subtract(B).multiply(A.subtract(B)), "(a - b) ^ 2");
        H.checkNum(H.arith("a ^ (1 + 1)", d), A.multiply(A), "a ^ (1 + 1)");
        Sym.cover("evaluated");
    }
    public static void compared() {
        int a = Sym.anyInt("a", -100000, 100000), z = Sym.anyInt("z");
        for (String cmp : H.OPS) H.checkBool(H.bool("(a ^ 2) " + cmp + " z", H.data("a", a, "z", z)), H.holds(cmp, Long.compare((long) a * a, z)), "comparison of a power");
        Sym.cover("evaluated");
    }
}
