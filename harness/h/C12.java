package h;

import java.util.LinkedHashMap;
import java.util.Map;
import sx.Sym;

/** Dotted fields are resolved through nested maps, and only through them. */
public class C12 {
    static final String[] NAMES = {"a", "b", "c", "d", "e"};
    /** a chain of n maps around v: names[0] -> ... -> names[n-1] -> v, with decoys of other values on every level */
    private static Map<String, Object> chain(int n, Object v, int decoy) {
        Object cur = v;
        for (int i = n - 1; i >= 0; i--) {
            Map<String, Object> m = new LinkedHashMap<>();
            m.put("x", decoy);
            m.put(NAMES[i], cur);
            if (i != n - 1) m.put(NAMES[n - 1], decoy);
            if (i > 0) m.put(NAMES[i - 1] + "." + NAMES[i], decoy);
            cur = m;
        }
        return (Map<String, Object>) cur;
    }
    private static String path(int n) { String s = NAMES[0]; for (int i = 1; i < n; i++) s = s + "." + NAMES[i]; return s; }
    /** every kind of expression sees the value at the end of the chain */
    public static void resolve() {
        int n = 1 + Sym.choose("depth", 5), v = Sym.anyInt("v", -1000000, 1000000), dec = Sym.anyInt("decoy");
        String f = path(n);
        Map<String, Object> d = chain(n, v, dec);
        Sym.bound("depth 1 to 5, other values under the same and under the dotted names on the way");
        int form = Sym.choose("form", 8);
        switch (form) {
            case 0: H.checkBool(H.bool(f + " > 42", d), v > 42, "nested field compared"); break;
            case 1: H.checkBool(H.bool("42 > " + f, d), 42 > v, "nested field on the right"); break;
            case 2: H.checkBool(H.bool(f + " 10 to 20", d), Sym.and(v >= 10, v <= 20), "nested field in a range"); break;
            case 3: H.checkBool(H.bool(f + " in (1, 2)", d), Sym.or(v == 1, v == 2), "nested field in a list"); break;
            case 4: H.checkBool(H.bool("not (" + f + " = 5)", d), v != 5, "nested field negated"); break;
            case 5: H.checkNum(H.arith(f + " + 1", d), new java.math.BigDecimal((long) v + 1), "nested field in arithmetic"); break;
            case 6: H.checkNum(H.arith("min(" + f + ", 3)", d), new java.math.BigDecimal(Math.min(v, 3)), "nested field in a function"); break;
            default: H.checkBool(H.bool("3 < 4 and " + f + " < 7", d), v < 7, "nested field in a conjunction");
        }
        Sym.cover("evaluated");
    }
    /** a broken chain has no value */
    public static void broken() {
        int n = 2 + Sym.choose("depth", 4), at = Sym.choose("at", 4), how = Sym.choose("how", 4);
        if (at >= n) { Sym.cover("evaluated"); return; }
        int dec = Sym.anyInt("decoy");
        Map<String, Object> d = chain(n, 5, dec), m = d;
        for (int i = 0; i < at; i++) m = (Map<String, Object>) m.get(NAMES[i]);
        if (how == 0) m.remove(NAMES[at]);
        else if (how == 1) m.put(NAMES[at], null);
        else if (at < n - 1) m.put(NAMES[at], how == 2 ? (Object) dec : "text");
        else { Sym.cover("evaluated"); return; }
        H.fails(H.bool(path(n) + " = 5", d), "broken chain fails");
        H.checkBool(H.bool(path(n) + " = null", d), true, "broken chain is null");
        H.fails(H.arith(path(n) + " + 1", d), "broken chain fails in arithmetic");
        Sym.cover("evaluated");
    }
    /** a flat key that is spelled like the path is another field */
    public static void flatKeys() {
        int n = 2 + Sym.choose("depth", 4), dec = Sym.anyInt("decoy"), at = Sym.choose("at", 4), how = Sym.choose("how", 3);
        if (at >= n - 1) { Sym.cover("evaluated"); return; }
        // maps for the first at names; under the next name nothing, null or no map; the rest of the path as one flat key
        Map<String, Object> d = new LinkedHashMap<>(), m = d;
        for (int i = 0; i < at; i++) { Map<String, Object> next = new LinkedHashMap<>(); m.put(NAMES[i], next); m = next; }
        if (how == 1) m.put(NAMES[at], null); else if (how == 2) m.put(NAMES[at], dec);
        String rest = NAMES[at];
        for (int i = at + 1; i < n; i++) { rest = rest + "." + NAMES[i]; m.put(rest, dec); }
        m.put(NAMES[n - 1], dec);
        d.put(path(n), dec);
        H.fails(H.bool(path(n) + " = 5", d), "a flat key is not the nested field");
        H.checkBool(H.bool(path(n) + " = null", d), true, "a flat key is not the nested field: null");
        H.fails(H.bool(path(n) + " in (5)", d), "a flat key is not the nested field: IN");
        H.fails(H.arith(path(n) + " + 1", d), "a flat key is not the nested field: arithmetic");
        Sym.cover("evaluated");
    }
    /** two chains that share a prefix are kept apart */
    public static void siblings() {
        int v = Sym.anyInt("v"), w = Sym.anyInt("w"), u = Sym.anyInt("u");
        Map<String, Object> d = H.data("p", H.data("q", H.data("r", v, "s", w), "r", u), "r", 1);
        String op = H.pick("op", H.OPS);
        H.checkBool(H.bool("p.q.r " + op + " p.q.s", d), H.holds(op, v < w ? -1 : v == w ? 0 : 1), "sibling fields");
        H.checkBool(H.bool("p.r " + op + " p.q.r", d), H.holds(op, u < v ? -1 : u == v ? 0 : 1), "fields on two levels");
        Sym.cover("evaluated");
    }
    /** field names are case-sensitive and may contain digits and underscores */
    public static void names() {
        int v = Sym.anyInt("v"), w = Sym.anyInt("w"), k = Sym.choose("name", 6);
        String[] f = {"Age", "age_1", "_age", "a1b2", "order", "X9_y"}, g = {"age", "age_2", "age", "a1b3", "Order", "x9_y"};
        H.checkBool(H.bool(f[k] + " < 10", H.data(f[k], v, g[k], w)), v < 10, "similar field names");
        H.checkBool(H.bool(f[k] + " >= " + g[k], H.data(f[k], v, g[k], w)), v >= w, "similar field names");
        H.checkBool(H.bool("m." + f[k] + " < 10", H.data("m", H.data(f[k], v, g[k], w))), v < 10, "similar nested field names");
        Sym.cover("evaluated");
    }
    /** paths of six parts and more */
    public static void longPaths() {
        int n = 6 + Sym.choose("depth", 15), v = Sym.anyInt("v"), w = Sym.anyInt("w");
        Map<String, Object> d = null;
        String path = "";
        for (int i = n; i > 0; i--) {
            Map<String, Object> m = new LinkedHashMap<>();
            m.put("k" + i, i == n ? (Object) v : d);
            m.put("k" + (i + 1), w);
            if (i < n) m.put("k" + i + ".k" + (i + 1), w);
            path = "k" + i + (path.isEmpty() ? "" : "." + path);
            d = m;
        }
        Sym.bound("longPaths: paths of 6 to 20 parts");
        H.checkBool(H.bool(path + " > 42", d), v > 42, "long path compared");
        H.checkNum(H.arith(path + " + 1", d), new java.math.BigDecimal((long) v + 1), "long path in arithmetic");
        H.checkBool(H.bool(path + ".x = null", d), true, "long path beyond a value is null");
        Sym.cover("evaluated");
    }
    /** maps of other classes, at the top and within */
    public static void mapClasses() {
        int v = Sym.anyInt("v");
        Map<String, Object> in = map("in", "b", v), out = map("out", "a", in);
        Sym.bound("mapClasses: 9 classes of maps at the top level and below");
        H.checkBool(H.bool("a.b > 42", out), v > 42, "another class of map");
        H.checkNum(H.arith("a.b + 1", out), new java.math.BigDecimal((long) v + 1), "another class of map");
        H.checkBool(H.bool("a.c = null", out), true, "another class of map: no such field");
        Sym.cover("evaluated");
    }
    private static Map<String, Object> map(String name, String k, Object v) {
        Map<String, Object> m = H.data(k, v);
        switch (Sym.choose(name, 9)) {
            case 0: return new java.util.TreeMap<>(m);
            case 1: return java.util.Collections.unmodifiableMap(m);
            case 2: return java.util.Collections.singletonMap(k, v);
            case 3: return new java.util.HashMap<>(m);
            case 4: return new java.util.Hashtable<>(m);
            case 5: return new java.util.concurrent.ConcurrentHashMap<>(m);
            case 6: return java.util.Collections.synchronizedMap(m);
            case 7: return new java.util.IdentityHashMap<String, Object>(m) { @Override public Object get(Object key) { return k.equals(key) ? v : null; } };
            default: return new java.util.AbstractMap<String, Object>() { @Override public java.util.Set<Map.Entry<String, Object>> entrySet() { return m.entrySet(); } };
        }
    }
}
