package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.util.Map;
import sx.Sym;

/** Unary minus negates exactly. */
public class C16 {
    /** -2^63 is the only integer whose negation does not fit */
    private static void negated(Try<Object> r, Object x, String tag) {
        if (x instanceof Long) { C13.exactOrFail(r, H.dec(x).negate(), tag); return; }
        H.checkNum(r, H.dec(x).negate(), tag);
        Sym.cover("evaluated");
    }
    public static void fields() {
        Object x = H.number("x");
        Sym.bound("all ints and longs; decimals within 10^11; doubles that are multiples of 1/4");
        negated(H.arith("-x", H.data("x", x)), x, "minus field");
        negated(H.arith("- x", H.data("x", x)), x, "minus field");
        negated(H.arith("-m.x", H.data("m", H.data("x", x))), x, "minus nested field");
    }
    public static void floats() {
        float x = new float[]{0f, 1.5f, -2.25f, 1000000.5f, -8388607f, 16777216f}[Sym.choose("x", 6)];
        Try<Object> r = H.arith("-x", H.data("x", x));
        H.checkNum(r, new BigDecimal((double) x).negate(), "minus float");
        Sym.cover("evaluated");
    }
    public static void literals() {
        int n = 1 + Sym.choose("len", Sym.thorough() ? 18 : 12);
        String k = H.digits("k", n);
        Sym.bound("integer literals of 1 to 12 digits (thorough: 18), decimal literals with up to 4 whole and 3 fraction digits");
        H.checkNum(H.arith("-" + k, H.data()), new BigDecimal(k).negate(), "minus integer literal");
        if (n > 4) { Sym.cover("evaluated"); return; }
        String q = k + "." + Sym.anyString("f", 1 + Sym.choose("frac", 3), "0123456789");
        H.checkNum(H.arith("-" + q, H.data()), new BigDecimal(q).negate(), "minus decimal literal");
        Sym.cover("evaluated");
    }
    /** of a group, twice, and as an operand */
    public static void nested() {
        int x = Sym.anyInt("x"), y = Sym.anyInt("y");
        Map<String, Object> d = H.data("x", x, "y", y);
        BigDecimal X = H.dec(x), Y = H.dec(y);
        int f = Sym.choose("form", 10);
        String[] e = {"-(x + y)", "-(-x)", "x + (-y)", "(-x) - y", "x * (-y)", "(-x) * (-y)", "-(x * y)", "(-x) + 10", "5 - (-x)", "-(x - (-y))"};
        BigDecimal[] v = {X.add(Y).negate(), X, X.subtract(Y), X.negate().subtract(Y), X.multiply(Y).negate(), X.multiply(Y), X.multiply(Y).negate(), X.negate().add(BigDecimal.TEN), X.add(new BigDecimal(5)), X.add(Y).negate()};
        H.checkNum(H.arith(e[f], d), v[f], "minus inside " + e[f]);
        Sym.cover("evaluated");
    }
    public static void nestedDecimals() {
        BigDecimal x = Sym.anyDecimal("x", 2, -1000000, 1000000), y = Sym.anyDecimal("y", 3, -1000000, 1000000);
        Map<String, Object> d = H.data("x", x, "y", y);
        H.checkNum(H.arith("-(x + y)", d), x.add(y).negate(), "minus a decimal sum");
        H.checkNum(H.arith("-(-x)", d), x, "minus minus a decimal");
        H.checkNum(H.arith("(-x) * y", d), x.multiply(y).negate(), "minus a decimal factor");
        H.checkNum(H.arith("-min(x, y)", d), x.min(y).negate(), "minus a function");
        Sym.cover("evaluated");
    }
    /** negative values in comparisons, ranges and memberships */
    public static void inPredicates() {
        Object x = H.number("x");
        if (x instanceof Long) Sym.assume((Long) x > Long.MIN_VALUE);
        String k = H.digits("k", 1 + 2 * Sym.choose("kl", 2));
        Map<String, Object> d = H.data("x", x);
        BigDecimal v = H.dec(x), m = new BigDecimal(k).negate();
        for (String c : H.OPS) H.checkBool(H.bool("x " + c + " -" + k, d), H.holds(c, v.compareTo(m)), "comparison with a negative literal");
        H.checkBool(H.bool("x in (5, -" + k + ")", d), Sym.or(v.compareTo(new BigDecimal(5)) == 0, v.compareTo(m) == 0), "membership of a negative literal");
        for (String c : H.OPS) H.checkBool(H.bool("(-x) " + c + " " + k, H.data("x", x)), H.holds(c, v.negate().compareTo(new BigDecimal(k))), "comparison of a negated field");
        Sym.cover("evaluated");
    }
    /** a minus that starts a comparison, and a negative bound of a range (the grammar gives the comparison to the minus) */
    public static void first() {
        int x = Sym.anyInt("x");
        Sym.assume(x > Integer.MIN_VALUE);
        String k = H.digits("k", 2);
        int n = Integer.parseInt(k);
        int f = Sym.choose("form", 4);
        String c = H.pick("op", H.OPS);
        String[] e = {"-" + k + " " + c + " x", "-x " + c + " " + k, "not -" + k + " " + c + " x", "x -" + k + " TO " + k};
        String[] what = {"-5 < x", "-x < 5", "not -5 < x", "x -5 TO 5"};
        boolean[] v = {H.holds(c, Integer.compare(-n, x)), H.holds(c, Integer.compare(-x, n)), !H.holds(c, Integer.compare(-n, x)), Sym.and(x >= -n, x <= n)};
        if (f == 3 && !c.equals("=")) { Sym.cover("evaluated"); return; }
        Try<Boolean> r = H.bool(e[f], H.data("x", x));
        Sym.check(r.isSuccess(), "a minus in front: " + what[f] + " is evaluated");
        if (r.isSuccess()) Sym.check(r.get() == v[f], "a minus in front: value of " + what[f]);
        Sym.cover("evaluated");
    }
    /** floats that are no short binary fractions count as the decimal they print as */
    public static void decimalFloats() {
        float[] xs = {0.1f, -0.1f, 3.3f, -0.7f, 1234.567f, 1.0E-5f, 16777.217f, 0.33333334f, -99.99f};
        double[] ds = {0.1, -0.1, 3.3, 1.0E-5, 1234.567, 0.30000000000000004, -99.99, 1e15, 123456789.123456789};
        int k = Sym.choose("x", xs.length);
        Sym.bound("decimalFloats: 9 floats and 9 doubles");
        H.checkNum(H.arith("-x", H.data("x", xs[k])), new BigDecimal(Float.toString(xs[k])).negate(), "minus float");
        H.checkNum(H.arith("-x", H.data("x", ds[k])), new BigDecimal(Double.toString(ds[k])).negate(), "minus double");
        H.checkNum(H.arith("-(x + 1)", H.data("x", xs[k])), new BigDecimal(Float.toString(xs[k])).add(BigDecimal.ONE).negate(), "minus a sum with a float");
        Sym.cover("evaluated");
    }
    /** decimals of any scale keep every digit */
    public static void wideDecimals() {
        BigDecimal x = Sym.anyDecimal("x", 12 + 5 * Sym.choose("scale", 3), Long.MIN_VALUE, Long.MAX_VALUE), y = x.add(new BigDecimal("12345678901234567890123"));
        Sym.bound("wideDecimals: decimals of 12, 17 and 22 fraction digits, with up to 23 whole digits");
        H.checkNum(H.arith("-x", H.data("x", x)), x.negate(), "minus a decimal of many digits");
        H.checkNum(H.arith("-x", H.data("x", y)), y.negate(), "minus a decimal of many digits");
        Sym.cover("evaluated");
    }
}
