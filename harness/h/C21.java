package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.util.Map;
import java.util.ArrayList;
import java.util.Arrays;
import sx.Sym;

/** MODE is one of the values, and no value occurs more often. */
public class C21 {
    private static void run(Items i, String tag) {
        Try<Object> r = H.arith(i.call(Sym.choose("kw", 2) == 0 ? "mode" : "MODE"), i.data);
        Sym.check(r.isSuccess(), "MODE of " + tag + ": evaluation succeeds");
        if (!r.isSuccess()) return;
        Sym.check(H.isNumber(r.get()), "MODE of " + tag + ": result is a number");
        BigDecimal v = H.dec(r.get());
        int n = i.values.size(), mine = 0;
        for (BigDecimal x : i.values) mine += x.compareTo(v) == 0 ? 1 : 0;
        Sym.check(mine > 0, "MODE of " + tag + " is one of them");
        boolean most = true;
        for (int j = 0; j < n; j++) {
            int count = 0;
            for (BigDecimal x : i.values) count += x.compareTo(i.values.get(j)) == 0 ? 1 : 0;
            most = Sym.and(most, count <= mine);
        }
        Sym.check(most, "MODE of " + tag + " occurs most often");
        Sym.cover("evaluated");
    }
    public static void ints() {
        int n = 2 + Sym.choose("n", Sym.thorough() ? 4 : 3);
        Sym.bound("2 to 4 values (thorough: 5); all ints and longs, decimals within 10^11");
        run(Sym.choose("list", 2) == 0 ? Items.fields(n, 0, Long.MAX_VALUE) : Items.list(n, 0, Long.MAX_VALUE), "ints");
    }
    public static void longs() {
        int n = 2 + Sym.choose("n", 3);
        run(Sym.choose("list", 2) == 0 ? Items.fields(n, 1, Long.MAX_VALUE) : Items.list(n, 1, Long.MAX_VALUE), "longs");
    }
    public static void decimals() {
        int n = 2 + Sym.choose("n", 3);
        run(Sym.choose("list", 2) == 0 ? Items.fields(n, 2, Long.MAX_VALUE) : Items.list(n, 2, Long.MAX_VALUE), "decimals");
    }
    /** numbers of several types: equal numbers count together whatever their type */
    public static void mixedTypes() {
        int n = 2 + Sym.choose("n", Sym.thorough() ? 4 : 3), kind = 3 + Sym.choose("kinds", 5);
        if (kind == 6 && n > 3) return;
        run(Items.list(n, kind, Long.MAX_VALUE), "numbers of several types");
    }
    /** five values, three of them symbolic, so that a late majority is possible */
    public static void majority() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), c = Sym.anyInt("c");
        Items i = new Items();
        switch (Sym.choose("form", 3)) {
            case 0: i.collection(a, 7, b, 9, c); break;
            case 1: i.collection(7, 9, 9, a, b, c); break;
            default: i.literal("7").field(a).field(b).literal("12").literal("7").field(c); break;
        }
        Sym.bound("5 and 6 values of which 3 symbolic");
        run(i, "5 or 6 values");
    }
    public static void literals() {
        String k = H.digits("k", 2), l = H.digits("l", 2), m = H.digits("m", 2);
        run(new Items().literal(k).literal(l).literal(m), "literals");
    }
    public static void compared() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), z = Sym.anyInt("z");
        Map<String, Object> d = H.data("a", a, "b", b, "z", z);
        H.checkBool(H.bool("mode(a, b, a) = z", d), a == z, "comparison of MODE");
        H.checkNum(H.arith("mode(a, a, b) + 1", d), new BigDecimal((long) a + 1), "MODE in a sum");
        Sym.cover("evaluated");
    }
    /** blocks of equal values with counts up to several hundred; symbolic values decide or not */
    public static void large() {
        int a = Sym.anyInt("a"), p = Sym.choose("p", 6), form = Sym.choose("form", 3);
        int[] n = {10, 31, 127, 128, 255, 300};
        Items i = new Items();
        Object[] l = new Object[2 * n[p] + 1 + form];
        for (int k = 0; k < l.length; k++) l[k] = k >= 2 * n[p] ? (Object) a : form == 0 ? (Object) (k < n[p] ? 7 : 8) : form == 1 ? (Object) (k % 2 == 0 ? 7 : 8) : k % 2 == 0 ? (Object) 7L : new BigDecimal("8.0");
        Sym.bound("large: two values that occur 10 to 300 times each, in blocks or alternating, and 1 to 3 times a third");
        Try<Object> r = H.arith("mode(l)", H.data("l", new ArrayList<Object>(Arrays.asList(l))));
        Sym.check(r.isSuccess(), "MODE of many values: evaluation succeeds");
        if (!r.isSuccess()) return;
        BigDecimal v = H.dec(r.get());
        boolean seven = v.compareTo(new BigDecimal(7)) == 0, eight = v.compareTo(new BigDecimal(8)) == 0;
        Sym.check(Sym.or(Sym.and(a == 7, seven), Sym.or(Sym.and(a == 8, eight), Sym.and(Sym.and(a != 7, a != 8), Sym.or(seven, eight)))), "MODE of many values occurs most often");
        Sym.cover("evaluated");
    }
}
