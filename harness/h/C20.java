package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.math.RoundingMode;
import java.util.Map;
import sx.Sym;

/** MEDIAN is the middle value, or half the sum of the two middle values truncated to two digits; the order of the arguments does not matter. */
public class C20 {
    /** v is the k-th smallest (0-based): at most k values are below it and at most n-1-k above */
    static boolean rank(BigDecimal v, Items i, int k) {
        int below = 0, above = 0;
        boolean member = false;
        for (BigDecimal x : i.values) {
            int c = x.compareTo(v);
            below += c < 0 ? 1 : 0;
            above += c > 0 ? 1 : 0;
            member = Sym.or(member, c == 0);
        }
        return Sym.and(member, Sym.and(below <= k, above <= i.values.size() - 1 - k));
    }
    /** the k-th smallest by a sorting network: no forks over the order */
    static BigDecimal[] sorted(Items i) {
        int n = i.values.size();
        BigDecimal[] s = i.values.toArray(new BigDecimal[n]);
        for (int r = 0; r < n; r++)
            for (int j = 0; j + 1 < n - r; j++) { BigDecimal lo = s[j].min(s[j + 1]), hi = s[j].max(s[j + 1]); s[j] = lo; s[j + 1] = hi; }
        return s;
    }
    private static void run(Items i, String tag) {
        Try<Object> r = H.arith(i.call("median"), i.data);
        BigDecimal[] s = sorted(i);
        int n = s.length;
        H.checkNum(r, n % 2 == 1 ? s[n / 2] : s[n / 2].add(s[n / 2 - 1]).divide(new BigDecimal(2), 2, RoundingMode.DOWN), "MEDIAN of " + tag);
        Sym.cover("evaluated");
    }
    public static void ints() {
        int n = 2 + Sym.choose("n", Sym.thorough() ? 4 : 3);
        Sym.bound("2 to 4 values (thorough: 5), all ints");
        run(Items.fields(n, 0, Long.MAX_VALUE), "ints");
    }
    public static void kinds() {
        int n = 2 + Sym.choose("n", 2), kind = 1 + Sym.choose("kinds", Items.KINDS - 1);
        Sym.bound("2 to 3 values of mixed numeric types, as fields or in a collection");
        run(Sym.choose("list", 2) == 0 ? Items.fields(n, kind, Long.MAX_VALUE) : Items.list(n, kind, Long.MAX_VALUE), "numbers");
    }
    /** five and more values with a few of them symbolic */
    public static void longer() {
        int n = Sym.thorough() ? 7 : 6;
        Object[] v = {Sym.anyInt("a"), 10, -3, Sym.anyInt("b"), 4, 25, 11};
        Object[] w = new Object[n - Sym.choose("fewer", 2)];
        for (int k = 0; k < w.length; k++) w[k] = v[k];
        Sym.bound("5 and 6 elements (thorough: 7) of which 2 symbolic");
        run(new Items().collection(w), "a longer collection");
    }
    public static void mixedArguments() {
        int a = Sym.anyInt("a", -1000000, 1000000);
        BigDecimal b = Sym.anyDecimal("b", 2, -1000000, 1000000);
        Items i = new Items();
        switch (Sym.choose("form", 4)) {
            case 0: i.field(a).literal("250").collection(b, 7); break;
            case 1: i.collection(a, 12L).literal("2.5"); break;
            case 2: i.literal(H.digits("k", 2)).field(a).literal("30"); break;
            default: i.field(a).computed("x0 * 2", H.dec(a).multiply(new BigDecimal(2))).computed("(-3)", new BigDecimal(-3)); break;
        }
        run(i, "mixed arguments");
    }
    /** any order of the same values gives the same median */
    public static void permuted() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), c = Sym.anyInt("c");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c);
        String[] perms = {"a, c, b", "b, a, c", "b, c, a", "c, a, b", "c, b, a"};
        BigDecimal m = H.dec(H.arith("median(a, b, c)", d).get());
        H.checkNum(H.arith("MEDIAN(" + perms[Sym.choose("perm", 5)] + ")", d), m, "MEDIAN of permuted arguments");
        H.checkBool(H.bool("median(a, b, c) >= min(a, b, c) and median(a, b, c) <= max(a, b, c)", d), true, "MEDIAN between MIN and MAX");
        Sym.cover("evaluated");
    }
    public static void compared() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), z = Sym.anyInt("z");
        Map<String, Object> d = H.data("a", a, "b", b, "z", z);
        for (String cmp : H.OPS) H.checkBool(H.bool("median(a, b) " + cmp + " z", d), H.holds(cmp, Long.compare((long) a + b, 2L * z)), "comparison of MEDIAN");
        Sym.cover("evaluated");
    }
    /** many values, two of them symbolic */
    public static void large() {
        run(Items.large(Sym.choose("kind", 3), Sym.thorough() ? 5 : 3), "many values");
    }
    /** all but two values are equal */
    public static void outliers() {
        int n = new int[]{3, 4, 7, 10}[Sym.choose("n", 4)], v = Sym.anyInt("v");
        Object[] l = new Object[n];
        for (int k = 0; k < n; k++) l[k] = v;
        int at = Sym.choose("at", 3) * (n - 1) / 2;
        l[at] = Sym.anyInt("a");
        l[(at + 1) % n] = Sym.anyInt("b");
        Sym.bound("outliers: 3, 4, 7 and 10 values of which all but two are equal");
        run(new Items().collection(l), "equal values and two others");
    }
}
