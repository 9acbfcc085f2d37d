package h;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import sx.Sym;

/** The arguments of a function: numbers given as fields, literals, computed values or the elements of collections. */
final class Items {
    final List<BigDecimal> values = new ArrayList<>();
    final Map<String, Object> data = H.data();
    String text = "";

    private void arg(String s) { text = text.isEmpty() ? s : text + ", " + s; }
    Items field(Object v) {
        String n = "x" + values.size();
        data.put(n, v);
        values.add(H.dec(v));
        arg(n);
        return this;
    }
    Items literal(String s) { values.add(new BigDecimal(s)); arg(s); return this; }
    Items computed(String s, BigDecimal v) { values.add(v); arg(s); return this; }
    Items collection(Object... vs) {
        String n = "l" + values.size();
        List<Object> l = new ArrayList<>();
        for (Object v : vs) { l.add(v); values.add(H.dec(v)); }
        data.put(n, l);
        arg(n);
        return this;
    }
    BigDecimal sum() { BigDecimal s = BigDecimal.ZERO; for (BigDecimal v : values) s = s.add(v); return s; }
    BigDecimal min() { BigDecimal s = values.get(0); for (BigDecimal v : values) s = s.min(v); return s; }
    BigDecimal max() { BigDecimal s = values.get(0); for (BigDecimal v : values) s = s.max(v); return s; }
    String call(String f) { return f + "(" + text + ")"; }

    /** n numbers of one kind: 0 ints, 1 longs, 2 decimals, 3 ints and longs, 4 ints and decimals, 5 longs and decimals, 6 doubles and ints, 7 decimals of different scales */
    static Items fields(int n, int kind, long lim) {
        Items r = new Items();
        for (int i = 0; i < n; i++) r.field(value(i, kind, lim));
        return r;
    }
    static Object value(int i, int kind, long lim) {
        String n = "x" + i;
        boolean odd = i % 2 == 1;
        int il = (int) Math.min(lim, Integer.MAX_VALUE);
        if (kind == 0 || (kind == 3 || kind == 4) && odd || kind == 6 && !odd) return il == Integer.MAX_VALUE ? Sym.anyInt(n) : Sym.anyInt(n, -il, il);
        if (kind == 1 || kind == 3 || kind == 5 && odd) return lim == Long.MAX_VALUE ? Sym.anyLong(n) : Sym.anyLong(n, -lim, lim);
        if (kind == 6) return Sym.anyDouble(n, 2, -40000, 40000);
        if (kind == 7) return Sym.anyDecimal(n, 3 - i % 4, -1000000, 1000000);
        return Sym.anyDecimal(n, 2, -100000000000L, 100000000000L);
    }
    static final int KINDS = 8;
    /** one collection-valued field */
    static Items list(int n, int kind, long lim) {
        Object[] vs = new Object[n];
        for (int i = 0; i < n; i++) vs[i] = value(i, kind, lim);
        return new Items().collection(vs);
    }
    /** 9 to 100 values, all but two of them concrete: 0 ints, 1 longs beyond 53 bits, 2 of several types */
    static Items large(int kind) { return large(kind, Sym.thorough() ? 11 : 9); }
    static Items large(int kind, int limit) {
        int[] sizes = {9, 10, 11, 12, 15, 16, 17, 32, 33, 64, 100};
        int n = sizes[Sym.choose("size", limit)], at = Sym.choose("at", 3) * (n - 2) / 2;
        Object[] vs = new Object[n];
        for (int i = 0; i < n; i++) {
            int c = (i * 37 + 11) % 53 - 20;
            vs[i] = kind == 0 ? (Object) c : kind == 1 ? (Object) (9007199254740993L + c) : i % 3 == 0 ? (Object) c : i % 3 == 1 ? (Object) (long) c : new BigDecimal(c + ".25");
        }
        vs[at] = kind == 1 ? (Object) (9007199254740993L + Sym.anyInt("a", -1000, 1000)) : (Object) Sym.anyInt("a");
        vs[at + 1] = kind == 1 ? (Object) (9007199254740993L + Sym.anyInt("b", -1000, 1000)) : kind == 0 ? (Object) Sym.anyInt("b") : (Object) Sym.anyDecimal("b", 3, -1000000, 1000000);
        Sym.bound("large: collections of 9 to 33 values (thorough: 100) of which two adjacent ones are symbolic");
        return new Items().collection(vs);
    }
}
