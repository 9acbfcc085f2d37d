package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.math.RoundingMode;
import java.util.Map;
import sx.Sym;

/** Parentheses decide the grouping; without them products come before sums and equal operators go from left to right. */
public class C17 {
    static int var(String n) { return Sym.anyInt(n, -1000, 1000); }
    private static BigDecimal ap(String o, BigDecimal x, BigDecimal y) { return C13.apply(o, x, y); }
    /** every way to parenthesise four operands, every choice of three operators */
    public static void parenthesised() {
        BigDecimal a = H.dec(var("a")), b = H.dec(var("b")), c = H.dec(var("c")), e = H.dec(var("e"));
        Map<String, Object> d = H.data("a", a, "b", b, "c", c, "e", e);
        int shape = Sym.choose("shape", 5);
        Sym.bound("4 operands within 1000, the 5 groupings, + - * in every place");
        String[] ops = {"+", "-", "*"};
        for (String o : ops) for (String p : ops) {
            String q = ops[Sym.choose("q", 3)];
            String s;
            BigDecimal v;
            switch (shape) {
                case 0: s = "((a " + o + " b) " + p + " c) " + q + " e"; v = ap(q, ap(p, ap(o, a, b), c), e); break;
                case 1: s = "(a " + o + " (b " + p + " c)) " + q + " e"; v = ap(q, ap(o, a, ap(p, b, c)), e); break;
                case 2: s = "(a " + o + " b) " + p + " (c " + q + " e)"; v = ap(p, ap(o, a, b), ap(q, c, e)); break;
                case 3: s = "a " + o + " ((b " + p + " c) " + q + " e)"; v = ap(o, a, ap(q, ap(p, b, c), e)); break;
                default: s = "a " + o + " (b " + p + " (c " + q + " e))"; v = ap(o, a, ap(p, b, ap(q, c, e))); break;
            }
            H.checkNum(H.arith(s, d), v, "parentheses decide");
        }
        Sym.cover("evaluated");
    }
    /** parentheses around literals and functions, and superfluous ones */
    public static void superfluous() {
        int a = var("a"), b = var("b");
        Map<String, Object> d = H.data("a", a, "b", b);
        BigDecimal A = H.dec(a), B = H.dec(b);
        H.checkNum(H.arith("((a))", d), A, "superfluous parentheses");
        H.checkNum(H.arith("(((a)) - ((b)))", d), A.subtract(B), "superfluous parentheses");
        H.checkNum(H.arith("(a - b)", d), A.subtract(B), "superfluous parentheses");
        H.checkNum(H.arith("(10) - ((a) - (3))", d), new BigDecimal(13).subtract(A), "superfluous parentheses");
        H.checkNum(H.arith("(min((a), (b))) - (max(a, b))", d), A.min(B).subtract(A.max(B)), "parentheses around functions");
        H.checkNum(H.arith("2 * (3 - min(a - b, (b - a)))", d), new BigDecimal(2).multiply(new BigDecimal(3).subtract(A.subtract(B).min(B.subtract(A)))), "parentheses within functions");
        Sym.cover("evaluated");
    }
    /** products before sums */
    public static void precedence() {
        int a = var("a"), b = var("b"), c = var("c"), e = var("e");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c, "e", e);
        BigDecimal A = H.dec(a), B = H.dec(b), C = H.dec(c), E = H.dec(e), TWO = new BigDecimal(2);
        String t = "products before sums: ";
        H.checkNum(H.arith("a + b * c", d), A.add(B.multiply(C)), t + "a + b * c");
        H.checkNum(H.arith("a - b * c", d), A.subtract(B.multiply(C)), t + "a - b * c");
        H.checkNum(H.arith("a * b + c", d), A.multiply(B).add(C), t + "a * b + c");
        H.checkNum(H.arith("a * b - c", d), A.multiply(B).subtract(C), t + "a * b - c");
        H.checkNum(H.arith("a * b + c * e", d), A.multiply(B).add(C.multiply(E)), t + "a * b + c * e");
        H.checkNum(H.arith("a * b - c * e", d), A.multiply(B).subtract(C.multiply(E)), t + "a * b - c * e");
        H.checkNum(H.arith("a + b * c + e", d), A.add(B.multiply(C)).add(E), t + "a + b * c + e");
        H.checkNum(H.arith("a + b * c * e", d), A.add(B.multiply(C).multiply(E)), t + "a + b * c * e");
        H.checkNum(H.arith("a + b - c", d), A.add(B).subtract(C), t + "a + b - c");
        H.checkNum(H.arith("10 + a * 3", d), new BigDecimal(10).add(A.multiply(new BigDecimal(3))), t + "10 + a * 3");
        Sym.cover("evaluated");
    }
    /** division and modulus before sums */
    public static void precedenceDivision() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        Map<String, Object> d = H.data("a", a, "b", b);
        String t = "division and modulus before sums: ";
        H.checkNum(H.arith("b + a % 7", d), H.dec(b).add(new BigDecimal(a % 7)), t + "b + a % 7");
        H.checkNum(H.arith("b - a % 7", d), H.dec(b).subtract(new BigDecimal(a % 7)), t + "b - a % 7");
        H.checkNum(H.arith("a % 7 + b", d), H.dec(b).add(new BigDecimal(a % 7)), t + "a % 7 + b");
        H.checkNum(H.arith("b * a % 7", H.data("a", a, "b", 3)), new BigDecimal(3L * a % 7), "product then modulus");
        Try<Object> r = H.arith("b - a / 8", d);
        Sym.check(r.isSuccess(), t + "evaluation succeeds");
        // 8 divides 1000, so the quotient is exact
        H.checkNum(r, H.dec(b).subtract(H.dec(a).multiply(new BigDecimal("0.125"))), t + "b - a / 8");
        H.checkNum(H.arith("a / 8 + b", d), H.dec(b).add(H.dec(a).multiply(new BigDecimal("0.125"))), t + "a / 8 + b");
        H.checkNum(H.arith("a / 8 * b", d), H.dec(b).multiply(H.dec(a).multiply(new BigDecimal("0.125"))), "quotient then product");
        Sym.cover("evaluated");
    }
    /** the same operator again: from left to right */
    public static void chains() {
        int n = 3 + Sym.choose("n", Sym.thorough() ? 5 : 3);
        String o = H.pick("op", "+", "-", "*");
        Sym.bound("3 to 5 operands (thorough: 7)");
        int first = Sym.anyInt("x0", -99, 99);
        Map<String, Object> d = H.data("x0", first);
        BigDecimal v = H.dec(first);
        String s = "x0";
        for (int i = 1; i < n; i++) {
            int x = Sym.anyInt("x" + i, -99, 99);
            d.put("x" + i, x);
            v = ap(o, v, H.dec(x));
            s = s + " " + o + " x" + i;
        }
        H.checkNum(H.arith(s, d), v, "chain of " + o);
        Sym.cover("evaluated");
    }
    public static void divisionChains() {
        int a = Sym.anyInt("a", 0, Integer.MAX_VALUE);
        Map<String, Object> d = H.data("a", a);
        H.checkNum(H.arith("a / 10 / 10", d), H.dec(a).multiply(new BigDecimal("0.01")), "chain of /");
        H.checkNum(H.arith("a % 1000 % 7", d), new BigDecimal(a % 1000 % 7), "chain of %");
        Sym.cover("evaluated");
    }
    /** nesting of any depth within the bound */
    public static void deep() {
        int n = 2 + 2 * Sym.choose("n", Sym.thorough() ? 6 : 3);
        Sym.bound("nesting depth 2, 4 and 6 (thorough: up to 12)");
        int x = Sym.anyInt("x", -99, 99);
        Map<String, Object> d = H.data("x", x);
        boolean right = Sym.choose("right", 2) == 0;
        String s = "x";
        BigDecimal v = H.dec(x);
        for (int i = 0; i < n; i++) {
            int y = Sym.anyInt("y" + i, -99, 99);
            d.put("y" + i, y);
            String o = i % 3 == 0 ? "-" : i % 3 == 1 ? "*" : "+";
            s = right ? "y" + i + " " + o + " (" + s + ")" : "(" + s + ") " + o + " y" + i;
            v = right ? ap(o, H.dec(y), v) : ap(o, v, H.dec(y));
        }
        H.checkNum(H.arith(s, d), v, "deep nesting");
        Sym.cover("evaluated");
    }
    /** both operands of a comparison are grouped alike */
    public static void compared() {
        int a = var("a"), b = var("b"), c = var("c"), e = var("e");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c, "e", e);
        for (String cmp : H.OPS) {
            H.checkBool(H.bool("(a + b * c) " + cmp + " e", d), H.holds(cmp, Long.compare((long) a + b * c, e)), "grouping in a comparison");
            H.checkBool(H.bool("(a - b) " + cmp + " (c - (e - 1))", d), H.holds(cmp, Long.compare(a - b, c - (e - 1))), "grouping on both sides");
            H.checkBool(H.bool("a " + cmp + " (b * (c - e))", d), H.holds(cmp, Long.compare(a, b * (c - e))), "grouping on the right");
        }
        Sym.cover("evaluated");
    }
    /** sums and differences, products, quotients and remainders: from left to right */
    public static void mixedOperators() {
        int a = var("a"), b = var("b"), c = var("c");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c);
        BigDecimal A = H.dec(a), B = H.dec(b), C = H.dec(c), THREE = new BigDecimal(3);
        switch (Sym.choose("form", 4)) {
            case 0: mixed("a - b + c", d, A.subtract(B).add(C), A.subtract(B.add(C))); break;
            case 1: mixed("a * b / 3", d, A.multiply(B).divide(THREE, 3, RoundingMode.DOWN), A.multiply(B.divide(THREE, 3, RoundingMode.DOWN))); break;
            case 2: mixed("a % 7 * 5", d, new BigDecimal(a % 7 * 5), new BigDecimal(a % 35)); break;
            default: H.checkNum(H.arith("(a - b) + c", d), A.subtract(B).add(C), "parenthesised (a - b) + c");
        }
        Sym.cover("evaluated");
    }
    private static void mixed(String e, Map<String, Object> d, BigDecimal right, BigDecimal known) {
        Try<Object> r = H.arith(e, d);
        Sym.check(r.isSuccess(), "mixed operators: evaluation succeeds");
        BigDecimal v = H.dec(r.get());
        Sym.check(Sym.or(v.compareTo(right) == 0, v.compareTo(known) == 0), "one of the two groupings of " + e);
        Sym.check(v.compareTo(right) == 0, "left to right: " + e);
    }
}
