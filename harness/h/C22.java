package h;

import java.math.BigDecimal;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import sx.Sym;

/** LEN is the length of a text or the number of items; INT drops the fraction. */
public class C22 {
    private static final String AL = "abZ09 _-.";
    public static void lenText() {
        int n = Sym.choose("n", Sym.thorough() ? 13 : 9);
        String s = Sym.anyString("s", n, AL);
        Sym.bound("texts of 0 to 8 characters (thorough: 12)");
        H.checkNum(H.arith("len(s)", H.data("s", s)), new BigDecimal(n), "LEN of a text");
        H.checkNum(H.arith("LEN(m.s)", H.data("m", H.data("s", s))), new BigDecimal(n), "LEN of a nested text");
        Sym.cover("evaluated");
    }
    public static void lenQuoted() {
        int n = 1 + Sym.choose("n", 5);
        String s = Sym.anyString("s", n, "abZ09 _");
        H.checkNum(H.arith(Sym.choose("q", 2) == 0 ? "len('" + s + "')" : "len(\"" + s + "\")", H.data()), new BigDecimal(n), "LEN of a quoted text");
        Sym.cover("evaluated");
    }
    public static void lenItems() {
        int n = 1 + Sym.choose("n", Sym.thorough() ? 6 : 5);
        Items i = Sym.choose("list", 2) == 0 ? Items.fields(n, Sym.choose("kinds", Items.KINDS), Long.MAX_VALUE) : Items.list(n, Sym.choose("kinds", Items.KINDS), Long.MAX_VALUE);
        Sym.bound("1 to 5 items (thorough: 6) of the 8 combinations of numeric types");
        H.checkNum(H.arith(i.call("len"), i.data), new BigDecimal(n), "LEN of numbers");
        Sym.cover("evaluated");
    }
    /** several texts, several collections, and items of several types */
    public static void lenMixed() {
        String s = Sym.anyString("s", Sym.choose("ls", 3), AL), t = Sym.anyString("t", 1 + Sym.choose("lt", 2), AL);
        int a = Sym.anyInt("a");
        boolean b = Sym.anyBool("b");
        List<Object> l = new ArrayList<>(Arrays.asList(s, t)), k = new ArrayList<>(Arrays.asList(a, 2, b)), one = new ArrayList<>(Arrays.asList(t));
        Map<String, Object> d = H.data("s", s, "t", t, "a", a, "b", b, "l", l, "k", k, "one", one);
        String[] e = {"len(s, t)", "len(l)", "len(k)", "len(l, k)", "len(s, a, b)", "len(k, 'x', 2.5)", "len(a)", "len(b)", "len(a + 1, s)"};
        int[] v = {2, 2, 3, 5, 3, 5, 1, 1, 2};
        for (int i = 0; i < e.length; i++) H.checkNum(H.arith(e[i], d), new BigDecimal(v[i]), e[i]);
        Sym.cover("evaluated");
    }
    public static void lenCompared() {
        int n = Sym.choose("n", 4), z = Sym.anyInt("z");
        String s = Sym.anyString("s", n, AL);
        for (String cmp : H.OPS) {
            H.checkBool(H.bool("len(s) " + cmp + " z", H.data("s", s, "z", z)), H.holds(cmp, Integer.compare(n, z)), "comparison of LEN");
            H.checkBool(H.bool("len(s) " + cmp + " 2", H.data("s", s)), H.holds(cmp, Integer.compare(n, 2)), "comparison of LEN");
        }
        H.checkNum(H.arith("len(s) * z", H.data("s", s, "z", z)), new BigDecimal((long) n * z), "LEN in a product");
        Sym.cover("evaluated");
    }
    // ---- INT
    public static void intFields() {
        Object x = H.number("x");
        Sym.bound("all ints and longs, decimals within 10^11, doubles that are multiples of 1/4");
        H.checkNum(H.arith("int(x)", H.data("x", x)), H.dec(x).setScale(0, RoundingMode.DOWN), "INT of a field");
        H.checkNum(H.arith("INT(m.x)", H.data("m", H.data("x", x))), H.dec(x).setScale(0, RoundingMode.DOWN), "INT of a nested field");
        Sym.cover("evaluated");
    }
    /** decimals far beyond the int range keep every digit */
    public static void intWide() {
        BigDecimal x = Sym.anyDecimal("x", 1 + 3 * Sym.choose("scale", 4), Long.MIN_VALUE, Long.MAX_VALUE);
        H.checkNum(H.arith("int(x)", H.data("x", x)), x.setScale(0, RoundingMode.DOWN), "INT of a wide decimal");
        Sym.cover("evaluated");
    }
    public static void intLiterals() {
        int n = 1 + Sym.choose("len", Sym.thorough() ? 17 : 11), f = Sym.choose("frac", 4);
        String w = H.digits("w", n);
        H.checkNum(H.arith("int(" + w + (f == 0 ? "" : "." + Sym.anyString("f", f, "0123456789")) + ")", H.data()), new BigDecimal(w), "INT of a literal");
        Sym.cover("evaluated");
    }
    /** of computed values; idempotent; between x-1 and x+1 */
    public static void intComputed() {
        BigDecimal x = Sym.anyDecimal("x", 2, -1000000, 1000000), y = Sym.anyDecimal("y", 1, -1000000, 1000000);
        int a = Sym.anyInt("a");
        Map<String, Object> d = H.data("x", x, "y", y, "a", a);
        H.checkNum(H.arith("int(x + y)", d), x.add(y).setScale(0, RoundingMode.DOWN), "INT of a sum");
        H.checkNum(H.arith("int(x * y)", d), x.multiply(y).setScale(0, RoundingMode.DOWN), "INT of a product");
        H.checkNum(H.arith("int(int(x))", d), x.setScale(0, RoundingMode.DOWN), "INT of INT");
        H.checkNum(H.arith("int(-x)", d), x.negate().setScale(0, RoundingMode.DOWN), "INT of a negation");
        H.checkNum(H.arith("int(a / 4) + int(a)", d), H.dec(a).add(new BigDecimal(a / 4)), "INT of a quotient");
        H.checkNum(H.arith("a - int(x)", d), H.dec(a).subtract(x.setScale(0, RoundingMode.DOWN)), "INT in a difference");
        Sym.cover("evaluated");
    }
    public static void intCompared() {
        BigDecimal x = Sym.anyDecimal("x", 2, -100000, 100000);
        int z = Sym.anyInt("z");
        for (String cmp : H.OPS) H.checkBool(H.bool("int(x) " + cmp + " z", H.data("x", x, "z", z)), H.holds(cmp, x.setScale(0, RoundingMode.DOWN).compareTo(new BigDecimal(z))), "comparison of INT");
        Sym.cover("evaluated");
    }
    /** texts outside Latin-1, long ones and blanks; a character is a UTF-16 unit */
    public static void lenOther() {
        String t = new String[]{"\u00e9\u00df", "\u0416\u0436", "\u4e2d\u6587", "e\u0301", "a\u200bb", "  ", " a  b ", "\t\n", "\ufb01", "\u0000", "\ud83d\ude00", "\u00a0"}[Sym.choose("t", 12)];
        int n = Sym.choose("n", 3);
        String s = Sym.anyString("s", n, AL) + t + Sym.anyString("u", 1, " a");
        Sym.bound("lenOther: 12 texts of other scripts, blanks and control characters between further characters; a character counts as a UTF-16 unit");
        H.checkNum(H.arith("len(s)", H.data("s", s)), new BigDecimal(n + t.length() + 1), "LEN of a text of another script");
        Sym.cover("evaluated");
    }
    public static void lenLong() {
        int[] ns = {16, 31, 32, 50, 63, 64, 100, 127, 128, 255, 256, 1000, 1024, 4096, 70000};
        int n = ns[Sym.choose("n", ns.length)];
        StringBuilder b = new StringBuilder();
        for (int k = 0; k < n; k++) b.append((char) ('a' + k % 26));
        Sym.bound("lenLong: texts of up to 70000 characters, collections of up to 1000 elements");
        H.checkNum(H.arith("len(s)", H.data("s", b + Sym.anyString("s", 1, AL))), new BigDecimal(n + 1), "LEN of a long text");
        if (n > 1000) { Sym.cover("evaluated"); return; }
        List<Object> l = new ArrayList<>();
        for (int k = 0; k < n; k++) l.add(k % 3 == 0 ? (Object) "x" : (Object) k);
        l.add(Sym.anyInt("a"));
        H.checkNum(H.arith("len(l)", H.data("l", l)), new BigDecimal(n + 1), "LEN of a large collection");
        Sym.cover("evaluated");
    }
    /** decimals of any scale */
    public static void intScales() {
        BigDecimal x = Sym.anyDecimal("x", 14 + 3 * Sym.choose("scale", 4), Long.MIN_VALUE, Long.MAX_VALUE), y = x.add(new BigDecimal("98765432109876543210"));
        Sym.bound("intScales: decimals of 14 to 23 fraction digits, and with 20 whole digits");
        H.checkNum(H.arith("int(x)", H.data("x", x)), x.setScale(0, RoundingMode.DOWN), "INT of a fine decimal");
        H.checkNum(H.arith("int(x)", H.data("x", y)), y.setScale(0, RoundingMode.DOWN), "INT of a large decimal");
        Sym.cover("evaluated");
    }
}
