package h;

import java.math.BigDecimal;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import sx.Sym;

/** CONTAINS_ANY holds iff some listed value is an element, CONTAINS_ALL iff every one is. */
public class C08 {
    private static final String[] ANY = {"contains_any", "CONTAINS_ANY"}, ALL = {"contains_all", "CONTAINS_ALL"};
    private static Object container(List<Object> l, int kind) {
        return kind == 0 ? l : l.toArray();
    }
    private static void run(String items, Map<String, Object> d, boolean any, boolean all, String tag) {
        int kw = Sym.thorough() ? Sym.choose("kw", 2) : d.get("l") instanceof Object[] ? 1 : 0;
        H.checkBool(H.bool("l " + ANY[kw] + " (" + items + ")", d), any, "CONTAINS_ANY " + tag);
        H.checkBool(H.bool("l " + ALL[kw] + " (" + items + ")", d), all, "CONTAINS_ALL " + tag);
        Sym.cover("evaluated");
    }
    /** integers: 0 to 3 elements in a list or an array, 1 to 3 items that are literals, fields or both */
    public static void integers() {
        int n = Sym.choose("n", Sym.thorough() ? 5 : 4), m = 1 + Sym.choose("m", Sym.thorough() ? 4 : 3);
        List<Object> l = new ArrayList<>();
        int[] x = new int[n];
        for (int i = 0; i < n; i++) { x[i] = Sym.anyInt("x" + i); l.add(x[i]); }
        Map<String, Object> d = H.data("l", container(l, Sym.choose("container", 2)));
        String items = "";
        boolean any = false, all = true;
        Sym.bound("0 to 3 elements (list or array) and 1 to 3 items; thorough: 4 and 4");
        for (int j = 0; j < m; j++) {
            int v;
            if (j == 1) { v = Sym.anyInt("f" + j); d.put("f" + j, v); items = items + ", f" + j; }
            else { String s = H.digits("i" + j, 2); v = (s.charAt(0) - '0') * 10 + s.charAt(1) - '0'; items = items + (j == 0 ? "" : ", ") + s; }
            boolean in = false;
            for (int i = 0; i < n; i++) in = Sym.or(in, x[i] == v);
            any = Sym.or(any, in); all = Sym.and(all, in);
        }
        run(items, d, any, all, "integers");
    }
    /** texts, in a list, a set or an array */
    public static void texts() {
        int n = Sym.choose("n", 4), m = 1 + Sym.choose("m", 2);
        String al = "aAbB1 ";
        int len = 1 + Sym.choose("len", 2);
        List<Object> l = new ArrayList<>();
        String[] x = new String[n];
        for (int i = 0; i < n; i++) { x[i] = Sym.anyString("x" + i, i == 2 ? 1 : len, al); l.add(x[i]); }
        Map<String, Object> d = H.data("l", container(l, Sym.choose("container", 2)));
        String items = "";
        boolean any = false, all = true;
        Sym.bound("0 to 3 texts of 1 to 2 characters, 1 to 2 items");
        for (int j = 0; j < m; j++) {
            String v = Sym.anyString("i" + j, len, al);
            if (j == 1) { d.put("f", v); items = items + ", f"; } else items = "'" + v + "'";
            boolean in = false;
            for (int i = 0; i < n; i++) in = Sym.or(in, x[i].equals(v));
            any = Sym.or(any, in); all = Sym.and(all, in);
        }
        run(items, d, any, all, "texts");
    }
    /** a set of concrete texts against a symbolic item */
    public static void sets() {
        String v = Sym.anyString("v", 4, "adeirtw"), w = Sym.anyString("w", 5, "adeirtw");
        Object set = new LinkedHashSet<>(Arrays.asList("read", "write", "admin"));
        boolean a = v.equals("read"), b = w.equals("write");
        run("'" + v + "', '" + w + "'", H.data("l", set), Sym.or(a, b), Sym.and(a, b), "set of texts");
    }
    /** a collection-valued field among the items stands for its elements */
    public static void collectionItems() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), p = Sym.anyInt("p"), q = Sym.anyInt("q");
        boolean ip = Sym.or(p == a, p == b), iq = Sym.or(q == a, q == b), i7 = Sym.or(a == 7, b == 7);
        Map<String, Object> d = H.data("l", new ArrayList<Object>(Arrays.asList(a, b)), "w", new ArrayList<Object>(Arrays.asList(p, q)));
        if (Sym.choose("extra", 2) == 0) run("w", d, Sym.or(ip, iq), Sym.and(ip, iq), "collection of wanted values");
        else run("w, 7", d, Sym.or(Sym.or(ip, iq), i7), Sym.and(Sym.and(ip, iq), i7), "collection of wanted values and a literal");
    }
    /** decimals with the same number of fraction digits, longs and booleans */
    public static void others() {
        int type = Sym.choose("type", 3);
        if (type == 0) {
            BigDecimal a = Sym.anyDecimal("a", 1, 1, 1000), b = Sym.anyDecimal("b", 1, 1, 1000);
            String v = H.digits("v", 1 + Sym.choose("vl", 2)) + "." + Sym.anyString("vf", 1, "0123456789");
            BigDecimal x = new BigDecimal(v);
            boolean in = Sym.or(x.compareTo(a) == 0, x.compareTo(b) == 0);
            run(v, H.data("l", new ArrayList<Object>(Arrays.asList(a, b))), in, in, "decimals");
        } else if (type == 1) {
            long p = Sym.anyLong("p"), q = Sym.anyLong("q"), r = Sym.anyLong("r");
            boolean in2 = Sym.or(r == p, r == q);
            run("r", H.data("l", new ArrayList<Object>(Arrays.asList(p, q)), "r", r), in2, in2, "longs");
        } else {
            boolean s = Sym.anyBool("s"), t = Sym.anyBool("t");
            run("true", H.data("l", new ArrayList<Object>(Arrays.asList(s, t))), Sym.or(s, t), Sym.or(s, t), "booleans");
        }
    }
    /** numbers that are equal but not written alike, of any numeric type */
    public static void equalNumbers() {
        Object a = H.number("a"), b = H.number("b"), v = H.number("v");
        boolean in = Sym.or(H.dec(a).compareTo(H.dec(v)) == 0, H.dec(b).compareTo(H.dec(v)) == 0);
        run("v", H.data("l", new ArrayList<Object>(Arrays.asList(a, b)), "v", v), in, in, "numbers of several types");
    }
    public static void numberLiterals() {
        Object a = H.number("a");
        String k = H.digits("k", 2), q = H.digits("q", 1) + "." + Sym.anyString("f", 1 + Sym.choose("fl", 2), "0123456789");
        boolean i = H.dec(a).compareTo(new BigDecimal(k)) == 0, j = H.dec(a).compareTo(new BigDecimal(q)) == 0;
        run(k, H.data("l", new ArrayList<Object>(Arrays.asList(a))), i, i, "an integer literal");
        run(q, H.data("l", new ArrayList<Object>(Arrays.asList(a))), j, j, "a decimal literal");
    }
    /** dates, as dates or as text, against date literals */
    public static void dates() {
        LocalDate x = Sym.anyDate("x", 1990, 2030), y = Sym.anyDate("y", 1990, 2030);
        boolean text = Sym.choose("text", 2) == 1;
        boolean in = x.isEqual(y);
        run(y.toString(), H.data("l", new ArrayList<Object>(Arrays.asList(text ? (Object) x.toString() : x))), in, in, "dates");
    }
    /** a nested array field, inside a conjunction and negated */
    public static void context() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), c = Sym.anyInt("c");
        Map<String, Object> d = H.data("m", H.data("l", new ArrayList<Object>(Arrays.asList(a, b))), "c", c);
        boolean in = Sym.or(a == 4, b == 4), all = Sym.and(in, Sym.or(a == 5, b == 5));
        H.checkBool(H.bool("not (m.l contains_any (4)) and c > 3", d), Sym.and(Sym.not(in), c > 3), "negated CONTAINS_ANY in context");
        H.checkBool(H.bool("c > 3 or m.l contains_all (4, 5)", d), Sym.or(c > 3, all), "CONTAINS_ALL in context");
        Sym.cover("evaluated");
    }
    /** a field that is not a collection contains nothing */
    public static void notACollection() {
        int a = Sym.anyInt("a");
        Map<String, Object> d = H.data("l", a);
        io.vavr.control.Try<Boolean> r = H.bool("l contains_any (4)", d), s = H.bool("l contains_all (4)", d);
        Sym.check(r.isFailure() || !r.get(), "CONTAINS_ANY on a scalar does not hold");
        Sym.check(s.isFailure() || !s.get(), "CONTAINS_ALL on a scalar does not hold");
        Sym.cover("evaluated");
    }
    private static final int[] SIZES = {9, 17, 33, 100};
    /** large collections of numbers of several types, one element symbolic */
    public static void largeCollections() {
        int n = SIZES[Sym.choose("size", SIZES.length)], at = Sym.choose("at", 3) * (n - 1) / 2;
        int f = Sym.anyInt("f");
        List<Object> l = new ArrayList<>();
        for (int i = 0; i < n; i++) l.add(i == at ? (Object) f : i % 3 == 0 ? (Object) new BigDecimal((100 + i) + ".50") : i % 3 == 1 ? (Object) (100 + i) : (Object) (100L + i));
        Object v = Sym.choose("type", 3) == 0 ? (Object) Sym.anyInt("v") : Sym.choose("type", 3) == 1 ? (Object) Sym.anyLong("v") : (Object) Sym.anyDecimal("v", 3, -1000000, 1000000);
        boolean in = false, seven = f == 7;
        for (Object x : l) in = Sym.or(in, H.dec(x).compareTo(H.dec(v)) == 0);
        Sym.bound("largeCollections: 9, 17, 33 and 100 elements, numbers of several types, one of them symbolic");
        // a list of literals of several types is refused by design, so only the int stands among literals
        if (!(v instanceof Integer) || Sym.choose("items", 2) == 0) run("v", H.data("l", l, "v", v), in, in, "a large collection");
        else run("7, v, 101", H.data("l", l, "v", v), true, Sym.and(in, seven), "a large collection");
    }
    /** many items */
    public static void manyItems() {
        int n = SIZES[Sym.choose("size", 3)];
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        StringBuilder items = new StringBuilder();
        boolean any = false;
        for (int i = 0; i < n; i++) {
            items.append(i == 0 ? "" : ", ").append(100 + i);
            any = Sym.or(any, Sym.or(a == 100 + i, b == 100 + i));
        }
        Sym.bound("manyItems: 9, 17 and 33 items");
        run(items.toString(), H.data("l", new ArrayList<Object>(Arrays.asList(a, b))), any, false, "many items");
        List<Object> l = new ArrayList<>();
        for (int i = 0; i < n - 1; i++) l.add(100 + i);
        l.add(a);
        run(items.toString(), H.data("l", l), true, a == 100 + n - 1, "many items");
    }
    /** other kinds of collection */
    public static void containers() {
        int f = Sym.anyInt("f");
        Object[] c = {new LinkedHashSet<Object>(Arrays.asList(1, 2, 3)), new java.util.TreeSet<Object>(Arrays.asList(3, 1, 2)), new java.util.HashSet<Object>(Arrays.asList(1, 2, 3)), java.util.Collections.unmodifiableList(Arrays.asList(1, 2, 3)),
            java.util.Collections.unmodifiableSet(new LinkedHashSet<Object>(Arrays.asList(1, 2, 3))), new java.util.ArrayDeque<Object>(Arrays.asList(1, 2, 3)), new java.util.LinkedList<Object>(Arrays.asList(1, 2, 3)), new java.util.Vector<Object>(Arrays.asList(1, 2, 3)),
            new Integer[]{1, 2, 3}, new Long[]{1L, 2L, 3L}, new Object[]{1, 2L, new BigDecimal("3.0")}, new java.util.concurrent.CopyOnWriteArrayList<Object>(Arrays.asList(1, 2, 3)), new BigDecimal[]{new BigDecimal(1), new BigDecimal("2.0"), new BigDecimal(3)}, H.data("x", 1, "y", 2, "z", 3).values()};
        Map<String, Object> d = H.data("l", c[Sym.choose("kind", c.length)], "f", f);
        boolean in = Sym.and(f >= 1, f <= 3);
        Sym.bound("containers: 14 classes of collection and array, of three concrete elements");
        run("f", d, in, in, "another kind of collection");
        run("f, 2", d, true, in, "another kind of collection");
    }
    public static void textContainers() {
        String f = Sym.anyString("f", 1, "abcdAB");
        Object[] c = {new String[]{"a", "b", "c"}, new java.util.TreeSet<Object>(Arrays.asList("c", "a", "b")), new java.util.ArrayDeque<Object>(Arrays.asList("a", "b", "c")), new Object[]{"a", "b", "c"}, H.data("a", 1, "b", 2, "c", 3).keySet(), new java.util.LinkedList<Object>(Arrays.asList("a", "b", "c"))};
        Map<String, Object> d = H.data("l", c[Sym.choose("kind", c.length)], "f", f);
        boolean in = Sym.or(f.equals("a"), Sym.or(f.equals("b"), f.equals("c")));
        run("f", d, in, in, "another kind of collection of texts");
        run("'b', f", d, true, in, "another kind of collection of texts");
    }
}
