package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.math.RoundingMode;
import java.util.Map;
import sx.Sym;

/** SUM adds exactly; AVG and MEAN are the sum over the count, truncated: 2 digits for integers, 3 once a decimal takes part. */
public class C19 {
    private static final long LIM = 1L << 60;
    private static boolean decimals(Items i) { for (Object v : i.data.values()) if (v instanceof BigDecimal || v instanceof Double) return true; return false; }
    private static void run(Items i, boolean dec, String tag) {
        H.checkNum(H.arith(i.call("sum"), i.data), i.sum(), "SUM of " + tag);
        int n = i.values.size(), digits = dec ? 3 : 2;
        BigDecimal avg = i.sum().divide(new BigDecimal(n), digits, RoundingMode.DOWN);
        H.checkNum(H.arith(i.call("avg"), i.data), avg, "AVG of " + tag);
        H.checkNum(H.arith(i.call("mean"), i.data), avg, "MEAN of " + tag);
        Sym.cover("evaluated");
    }
    public static void fields() {
        int kind = Sym.choose("kinds", Items.KINDS), n = 2 + Sym.choose("n", kind == 6 ? 2 : Sym.thorough() ? 5 : 3);
        Sym.bound("2 to 4 fields (thorough: 6) of the 8 combinations of numeric types; all ints, longs within 2^60; doubles 2 to 3");
        run(Items.fields(n, kind, LIM), kind != 0 && kind != 1 && kind != 3, "fields");
    }
    public static void collection() {
        int kind = Sym.choose("kinds", Items.KINDS), n = 2 + Sym.choose("n", kind == 6 ? 2 : Sym.thorough() ? 6 : kind == 7 ? 3 : 4);
        Sym.bound("collections of 2 to 5 elements (thorough: 7)");
        run(Items.list(n, kind, LIM), kind != 0 && kind != 1 && kind != 3, "a collection");
    }
    public static void mixedArguments() {
        int f = Sym.choose("form", 4);
        int a = Sym.anyInt("a", -1000000, 1000000);
        BigDecimal b = Sym.anyDecimal("b", 2, -1000000, 1000000);
        Items i = new Items();
        switch (f) {
            case 0: i.field(a).literal(H.digits("k", 3)).collection(b, 7); break;
            case 1: i.collection(a, 12L).collection(Sym.anyInt("c"), -4); break;
            case 2: i.literal(H.digits("k", 2) + "." + Sym.anyString("kf", 2, "0123456789")).field(a).field(b); break;
            default: i.field(a).computed("x0 * 2", H.dec(a).multiply(new BigDecimal(2))).computed("(-3)", new BigDecimal(-3)); break;
        }
        run(i, f == 0 || f == 2, "mixed arguments");
    }
    public static void literals() {
        int n = 2 + Sym.choose("n", 3);
        boolean dec = Sym.choose("dec", 2) == 1;
        Items i = new Items();
        for (int k = 0; k < n; k++) i.literal(k == 1 && dec ? H.digits("k" + k, 1) + "." + Sym.anyString("f" + k, 1, "0123456789") : H.digits("k" + k, 1 + k));
        run(i, dec, "literals");
    }
    /** beyond 64 bits SUM fails rather than wrapping around */
    public static void overflow() {
        long a = Sym.anyLong("a"), b = Sym.anyLong("b");
        C13.exactOrFail(H.arith("sum(a, b)", H.data("a", a, "b", b)), H.dec(a).add(H.dec(b)), "SUM of longs");
    }
    public static void inContext() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), c = Sym.anyInt("c");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c);
        for (String cmp : H.OPS) {
            H.checkBool(H.bool("SUM(a, b) " + cmp + " c", d), H.holds(cmp, Long.compare((long) a + b, c)), "comparison of SUM");
            H.checkBool(H.bool("c " + cmp + " avg(a, b)", d), H.holds(cmp, Long.compare(2L * c, (long) a + b)), "comparison of AVG");
        }
        H.checkNum(H.arith("sum(a, b, c) - sum(a, b)", d), H.dec(c), "SUM minus SUM");
        H.checkNum(H.arith("sum(sum(a, b), c, 1)", d), new BigDecimal((long) a + b + c + 1), "nested SUM");
        Sym.cover("evaluated");
    }
    /** the average lies between the smallest and the largest value */
    public static void between() {
        int n = 2 + Sym.choose("n", 2), kind = Sym.choose("kinds", 2) * 2;
        Items i = Items.fields(n, kind, LIM);
        BigDecimal v = H.dec(H.arith(i.call("avg"), i.data).get());
        Sym.check(Sym.and(v.compareTo(i.min()) > -1, v.compareTo(i.max()) < 1), "AVG between MIN and MAX");
        Sym.cover("evaluated");
    }
    /** the average of longs, whatever their sum */
    public static void longAverages() {
        int n = 2 + Sym.choose("n", 2);
        Items i = Items.fields(n, 1, Long.MAX_VALUE);
        Sym.bound("averages of 2 and 3 arbitrary longs");
        H.checkNum(H.arith(i.call("avg"), i.data), i.sum().divide(new BigDecimal(n), 2, RoundingMode.DOWN), "AVG of longs");
        H.checkNum(H.arith(i.call("mean"), i.data), i.sum().divide(new BigDecimal(n), 2, RoundingMode.DOWN), "MEAN of longs");
        Sym.cover("evaluated");
    }
    /** decimals of many fraction digits: SUM keeps them all */
    public static void fineDecimals() {
        int s = 10 + 4 * Sym.choose("scale", 4);
        Items i = new Items().field(Sym.anyDecimal("x", s, -1000000000000L, 1000000000000L)).field(Sym.anyDecimal("y", s + 1, -1000000000000L, 1000000000000L)).field(new BigDecimal("12345678901234567890.5"));
        Sym.bound("fineDecimals: decimals of 10 to 23 fraction digits");
        run(i, true, "fine decimals");
    }
    /** many values, two of them symbolic */
    public static void large() {
        int kind = Sym.choose("kind", 3);
        run(Items.large(kind), kind == 2, "many values");
    }
}
