package h;

import java.math.BigDecimal;
import sx.Sym;

/** Numeric comparisons are exact. */
public class C01 {
    /** any two numeric fields of any two numeric Java types */
    public static void fields() {
        Object a = H.number("a"), b = H.number("b");
        String op = H.pick("op", H.OPS);
        Sym.bound("fields: int and long over their whole range; decimals |x| <= 10^11 unscaled with 0 or 2 fraction digits; doubles n/4 with |n| <= 10^5");
        H.checkBool(H.bool("a " + op + " b", H.data("a", a, "b", b)), H.holds(op, H.dec(a).compareTo(H.dec(b))), "field " + op + " field");
        Sym.cover("compared");
    }
    /** a field against an integer literal of 1 to 12 digits, on either side */
    public static void integerLiteral() {
        Object a = H.number("a");
        String n = H.digits("n", 1 + Sym.choose("len", Sym.thorough() ? 12 : 4) * (Sym.thorough() ? 1 : 3));
        String op = H.pick("op", H.OPS);
        Sym.bound("integer literals of 1, 4, 7 and 10 digits (thorough: 1 to 12)");
        boolean left = Sym.choose("side", 2) == 1;
        int c = H.dec(a).compareTo(new BigDecimal(n));
        H.checkBool(H.bool(left ? n + " " + op + " a" : "a " + op + " " + n, H.data("a", a)), H.holds(op, left ? -c : c), "field " + op + " integer literal");
        Sym.cover("compared");
    }
    /** a field against a decimal literal */
    public static void decimalLiteral() {
        Object a = H.number("a");
        String n = H.digits("n", 1 + Sym.choose("int", 3)) + "." + Sym.anyString("f", 1 + Sym.choose("frac", 3), "0123456789");
        String op = H.pick("op", H.OPS);
        Sym.bound("decimal literals with 1 to 3 integer and 1 to 3 fraction digits");
        boolean left = Sym.choose("side", 2) == 1;
        int c = H.dec(a).compareTo(new BigDecimal(n));
        H.checkBool(H.bool(left ? n + " " + op + " a" : "a " + op + " " + n, H.data("a", a)), H.holds(op, left ? -c : c), "field " + op + " decimal literal");
        Sym.cover("compared");
    }
    /** two literals */
    public static void literals() {
        String m = H.digits("m", 1 + Sym.choose("ml", 2)), n = H.digits("n", 1 + Sym.choose("nl", 2)) + (Sym.choose("dec", 2) == 1 ? "." + Sym.anyString("f", 1, "0123456789") : "");
        String op = H.pick("op", H.OPS);
        H.checkBool(H.bool(m + " " + op + " " + n, H.data()), H.holds(op, new BigDecimal(m).compareTo(new BigDecimal(n))), "literal " + op + " literal");
        Sym.cover("compared");
    }
    /** a number held as text is ordered by its numeric value against a number */
    public static void numericText() {
        String s = (Sym.choose("neg", 2) == 1 ? "-" : "") + H.digits("s", 1 + Sym.choose("len", 3)) + (Sym.choose("dec", 2) == 1 ? "." + Sym.anyString("f", 1, "0123456789") : "");
        BigDecimal b = Sym.anyDecimal("b", 1, -100000, 100000);
        String op = H.pick("op", "<", "<=", ">", ">=");
        boolean left = Sym.choose("side", 2) == 1;
        int c = new BigDecimal(s).compareTo(b);
        H.checkBool(H.bool(left ? "b " + op + " s" : "s " + op + " b", H.data("s", s, "b", b)), H.holds(op, left ? -c : c), "numeric text " + op + " number");
        Sym.cover("compared");
    }
    /** more digits than a double or a long holds, the operands alike but for their last digits */
    public static void manyDigits() {
        String p = H.pick("prefix", "12345678901234567", "0.12345678901234567", "9007199254740993.", "1.000000000000000000", "-98765432109876543210987654321.", "9223372036854775807.9");
        String s = p + Sym.anyString("s", 2, "0123456789"), t = p + Sym.anyString("t", 2, "0123456789");
        String op = H.pick("op", H.OPS);
        int c = new BigDecimal(s).compareTo(new BigDecimal(t)), form = Sym.choose("form", 4);
        Sym.bound("numbers of 19 to 31 digits that differ in the last two");
        boolean order = !op.equals("=") && !op.equals("!=");
        if (form == 3 && (!order || p.startsWith("-")) || form == 1 && p.startsWith("-")) { Sym.cover("compared"); return; }
        String e = form == 0 ? "a " + op + " b" : form == 1 ? t + " " + op + " a" : "a " + op + " " + t;
        Object a = form == 3 ? (Object) s : new BigDecimal(s);
        H.checkBool(H.bool(e, H.data("a", a, "b", new BigDecimal(t))), H.holds(op, form == 1 ? -c : c), "numbers of many digits " + op);
        Sym.cover("compared");
    }
    /** results of arithmetic compared inside a boolean expression */
    public static void computed() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), c = Sym.anyInt("c"), d = Sym.anyInt("d");
        String op = H.pick("op", H.OPS);
        int shape = Sym.choose("shape", 4);
        String e = shape == 0 ? "(a + b) " + op + " c" : shape == 1 ? "c " + op + " (a + b)" : shape == 2 ? "(a + b) " + op + " (c - d)" : "min(a, b) " + op + " (c + d)";
        long l = shape == 1 ? c : shape == 3 ? Math.min(a, b) : (long) a + b, r = shape == 0 ? c : shape == 1 ? (long) a + b : shape == 2 ? (long) c - d : (long) c + d;
        H.checkBool(H.bool(e, H.data("a", a, "b", b, "c", c, "d", d)), H.holds(op, l < r ? -1 : l == r ? 0 : 1), "computed operands " + op);
        Sym.cover("compared");
    }
}
