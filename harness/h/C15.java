package h;

import java.math.BigDecimal;
import java.util.Map;
import sx.Sym;

/** Sums, differences and products with a decimal are exact. */
public class C15 {
    static BigDecimal apply(String op, BigDecimal x, BigDecimal y) { return C13.apply(op, x, y); }
    private static boolean decimal(Object o) { return o instanceof BigDecimal || o instanceof Double; }
    /** two fields, at least one of them a decimal */
    public static void fields() {
        Object x = H.number("x"), y = H.number("y");
        if (!decimal(x) && !decimal(y)) return;
        Map<String, Object> d = H.data("x", x, "y", y);
        Sym.bound("ints, longs, decimals with 0 and 2 digits within 10^11, doubles that are multiples of 1/4 within 25000");
        for (String op : new String[]{"+", "-", "*"}) H.checkNum(H.arith("x " + op + " y", d), apply(op, H.dec(x), H.dec(y)), "decimal " + op);
        Sym.cover("evaluated");
    }
    static String literal(String n, int whole, int frac) { return H.digits(n, whole) + "." + Sym.anyString(n + "f", frac, "0123456789"); }
    /** a decimal literal on either side */
    public static void literals() {
        Object x = H.number("x");
        String k = Sym.choose("zero", 2) == 0 ? literal("k", 1 + Sym.choose("whole", 4), 1 + Sym.choose("frac", 4)) : "0." + Sym.anyString("kf", 1 + Sym.choose("frac", 6), "0123456789");
        BigDecimal v = new BigDecimal(k);
        Map<String, Object> d = H.data("x", x);
        Sym.bound("literals with 1 to 4 whole and 1 to 4 fraction digits, and 0.x with up to 6");
        for (String op : new String[]{"+", "-", "*"}) {
            H.checkNum(H.arith("x " + op + " " + k, d), apply(op, H.dec(x), v), "decimal " + op + " literal");
            H.checkNum(H.arith(k + " " + op + " x", d), apply(op, v, H.dec(x)), "literal " + op + " decimal");
        }
        Sym.cover("evaluated");
    }
    /** two decimal literals: 0.1 + 0.2 is 0.3 */
    public static void twoLiterals() {
        String k = literal("k", 1, 1 + Sym.choose("kf", 3)), l = literal("l", 1 + Sym.choose("lw", 2), 1 + Sym.choose("lf", 2));
        for (String op : new String[]{"+", "-", "*"}) H.checkNum(H.arith(k + " " + op + " " + l, H.data()), apply(op, new BigDecimal(k), new BigDecimal(l)), "literal " + op + " literal");
        Sym.cover("evaluated");
    }
    /** very large and very precise decimals keep every digit */
    public static void wide() {
        int scale = 10 * Sym.choose("scale", 3);
        BigDecimal x = Sym.anyDecimal("x", scale, Long.MIN_VALUE, Long.MAX_VALUE), y = Sym.anyDecimal("y", 18, Long.MIN_VALUE, Long.MAX_VALUE);
        for (String op : new String[]{"+", "-", "*"}) H.checkNum(H.arith("x " + op + " y", H.data("x", x, "y", y)), apply(op, x, y), "wide decimal " + op);
        Sym.cover("evaluated");
    }
    /** grouped by parentheses */
    public static void grouped() {
        BigDecimal x = Sym.anyDecimal("x", 2, -1000000, 1000000), z = Sym.anyDecimal("z", 1, -1000, 1000);
        int y = Sym.anyInt("y");
        String o = H.pick("o", "+", "-", "*"), p = H.pick("p", "+", "-", "*");
        Map<String, Object> d = H.data("x", x, "y", y, "z", z);
        H.checkNum(H.arith("(x " + o + " y) " + p + " z", d), apply(p, apply(o, x, H.dec(y)), z), "grouped left");
        H.checkNum(H.arith("x " + o + " (y " + p + " z)", d), apply(o, x, apply(p, H.dec(y), z)), "grouped right");
        Sym.cover("evaluated");
    }
    /** inside a comparison the exact value is compared */
    public static void compared() {
        BigDecimal x = Sym.anyDecimal("x", 2, -1000000, 1000000), y = Sym.anyDecimal("y", 3, -1000000, 1000000), z = Sym.anyDecimal("z", 3, -100000000, 100000000);
        String o = H.pick("o", "+", "-", "*");
        for (String c : H.OPS)
            H.checkBool(H.bool("(x " + o + " y) " + c + " z", H.data("x", x, "y", y, "z", z)), H.holds(c, apply(o, x, y).compareTo(z)), "comparison of a decimal " + o);
        Sym.cover("evaluated");
    }
    /** adding and subtracting give back the operand */
    public static void inverse() {
        BigDecimal x = Sym.anyDecimal("x", 2, -10000000000L, 10000000000L);
        int y = Sym.anyInt("y");
        H.checkNum(H.arith("(x + y) - y", H.data("x", x, "y", y)), x, "x + y - y");
        H.checkBool(H.bool("((x + y) - y) = x", H.data("x", x, "y", y)), true, "x + y - y = x");
        Sym.cover("evaluated");
    }
}
