package h;

import java.math.BigDecimal;
import java.util.Map;
import sx.Sym;

/** MIN is the smallest and MAX the largest of the values. */
public class C18 {
    private static void run(Items i, String tag) {
        H.checkNum(H.arith(i.call("min"), i.data), i.min(), "MIN of " + tag);
        H.checkNum(H.arith(i.call("max"), i.data), i.max(), "MAX of " + tag);
        Sym.cover("evaluated");
    }
    public static void fields() {
        int kind = Sym.choose("kinds", Items.KINDS), n = 2 + Sym.choose("n", Sym.thorough() ? 4 : kind < 3 ? 3 : 2);
        Sym.bound("2 to 4 fields or elements of one numeric type, 2 to 3 of two types (thorough: 5); all ints and longs");
        run(Items.fields(n, kind, Long.MAX_VALUE), "fields");
    }
    public static void collection() {
        int kind = Sym.choose("kinds", Items.KINDS), n = 2 + Sym.choose("n", Sym.thorough() ? 4 : kind < 3 ? 3 : 2);
        run(Items.list(n, kind, Long.MAX_VALUE), "a collection");
    }
    public static void mixedArguments() {
        int f = Sym.choose("form", 5);
        int a = Sym.anyInt("a", -1000000, 1000000);
        BigDecimal b = Sym.anyDecimal("b", 2, -1000000, 1000000);
        Items i = new Items();
        switch (f) {
            case 0: i.field(a).literal(H.digits("k", 3)).collection(b, 7); break;
            case 1: i.collection(a, 12L).collection(b, -4); break;
            case 2: i.literal(H.digits("k", 2) + "." + Sym.anyString("kf", 2, "0123456789")).field(a).field(b); break;
            case 3: i.field(a).computed("x0 * 2", H.dec(a).multiply(new BigDecimal(2))).computed("(-3)", new BigDecimal(-3)); break;
            default: i.field(a).field(b).computed("min(x0, x1)", H.dec(a).min(b)).literal("5"); break;
        }
        run(i, "mixed arguments");
    }
    public static void literals() {
        int n = 2 + Sym.choose("n", 3);
        Items i = new Items();
        for (int k = 0; k < n; k++) i.literal(k == 1 && Sym.choose("dec", 2) == 1 ? H.digits("k" + k, 1) + "." + Sym.anyString("f" + k, 1, "0123456789") : H.digits("k" + k, 1 + k));
        run(i, "literals");
    }
    /** used inside comparisons and arithmetic; both cases of the keyword */
    public static void inContext() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), c = Sym.anyInt("c");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c);
        int lo = Math.min(a, Math.min(b, c)), hi = Math.max(a, Math.max(b, c));
        for (String cmp : H.OPS) {
            H.checkBool(H.bool("MIN(a, b) " + cmp + " c", d), H.holds(cmp, Integer.compare(Math.min(a, b), c)), "comparison of MIN");
            H.checkBool(H.bool("c " + cmp + " max(a, b)", d), H.holds(cmp, Integer.compare(c, Math.max(a, b))), "comparison of MAX");
        }
        H.checkNum(H.arith("MAX(a, b, c) - MIN(a, b, c)", d), new BigDecimal(hi).subtract(new BigDecimal(lo)), "MAX - MIN");
        H.checkNum(H.arith("min(max(a, b), c)", d), new BigDecimal(Math.min(Math.max(a, b), c)), "nested MIN and MAX");
        H.checkNum(H.arith("max(a + 1, b - 1, 2 * c)", d), new BigDecimal((long) a + 1).max(new BigDecimal((long) b - 1)).max(new BigDecimal(2L * c)), "MAX of computed values");
        Sym.cover("evaluated");
    }
    /** decimals that agree in their first 20 digits */
    public static void closeDecimals() {
        int scale = 15 + 5 * Sym.choose("scale", 3);
        BigDecimal base = new BigDecimal(Sym.choose("base", 2) == 0 ? "1" : "-9007199254740993");
        Items i = new Items();
        for (int k = 0; k < 3; k++) i.field(base.add(Sym.anyDecimal("x" + k, scale, -1000, 1000)));
        Sym.bound("closeDecimals: decimals with 15 to 25 fraction digits that differ in the last three");
        run(i, "close decimals");
    }
    /** longs that coincide as doubles */
    public static void closeLongs() {
        Items i = new Items();
        for (int k = 0; k < 3; k++) i.field(Long.MAX_VALUE - Sym.anyInt("x" + k, 0, 2000));
        run(i, "close longs");
    }
    /** many values, two of them symbolic */
    public static void large() {
        run(Items.large(Sym.choose("kind", 3)), "many values");
    }
    public static void closeConcrete() {
        String[][] v = {{"1.00000000000000000002", "1.00000000000000000001"}, {"9007199254740993", "9007199254740992"}, {"-9223372036854775807", "-9223372036854775806"}, {"0.1", "0.1000000000000000055511151231257827"}, {"123456789012345678901234567890", "123456789012345678901234567891"}, {"1E+20", "100000000000000000001"}, {"0.30000000000000004", "0.3"}};
        String[] p = v[Sym.choose("pair", v.length)];
        int first = Sym.choose("first", 2);
        Sym.bound("closeConcrete: 7 pairs of numbers that coincide as doubles or nearly so");
        run(new Items().field(new BigDecimal(p[first])).field(new BigDecimal(p[1 - first])), "close numbers");
        run(new Items().collection(new BigDecimal(p[first]), new BigDecimal(p[1 - first]), new BigDecimal(p[first])), "close numbers");
    }
}
