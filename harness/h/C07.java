package h;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import sx.Sym;

/** IN is equality with some member; NOT IN is its negation. */
public class C07 {
    private static String in(boolean not) { return not ? (Sym.choose("kw", 2) == 0 ? "not in" : "NOT IN") : (Sym.choose("kw", 2) == 0 ? "in" : "IN"); }
    /** integer literals and integer fields, 1 to 5 members */
    public static void integers() {
        Object v = Sym.choose("long", 2) == 0 ? (Object) Sym.anyInt("v") : (Object) Sym.anyLong("v");
        int n = 1 + Sym.choose("n", 5);
        boolean not = Sym.choose("not", 2) == 1;
        Map<String, Object> d = H.data("v", v);
        String list = "";
        boolean any = false;
        Sym.bound("1 to 5 members, literals of 2 digits and fields alternating");
        for (int i = 0; i < n; i++) {
            BigDecimal m;
            if (i % 2 == 0) { String s = H.digits("l" + i, 2); list = list + (i == 0 ? "" : ", ") + s; m = new BigDecimal(s); }
            else { Object f = i == 1 ? (Object) Sym.anyInt("f" + i) : (Object) Sym.anyLong("f" + i); d.put("f" + i, f); list = list + ", f" + i; m = H.dec(f); }
            any = Sym.or(any, H.dec(v).compareTo(m) == 0);
        }
        H.checkBool(H.bool("v " + in(not) + " (" + list + ")", d), not ? Sym.not(any) : any, (not ? "NOT IN" : "IN") + " integers");
        Sym.cover("evaluated");
    }
    /** any numeric type on the left, mixed numeric members */
    public static void numbers() {
        Object v = H.number("v"), f = H.number("f");
        String k = H.digits("k", 1 + Sym.choose("klen", 2)), q = H.digits("q", 1) + "." + Sym.anyString("qf", 1 + Sym.choose("qlen", 2), "0123456789");
        boolean not = Sym.choose("not", 2) == 1;
        BigDecimal x = H.dec(v);
        boolean any = Sym.or(x.compareTo(new BigDecimal(k)) == 0, Sym.or(x.compareTo(new BigDecimal(q)) == 0, x.compareTo(H.dec(f)) == 0));
        H.checkBool(H.bool("v " + (not ? "not in" : "in") + " (" + k + ", f, " + q + ")", H.data("v", v, "f", f)), not ? Sym.not(any) : any, (not ? "NOT IN" : "IN") + " mixed numbers");
        Sym.cover("evaluated");
    }
    /** text, quoted literals and fields; case and blanks matter */
    public static void text() {
        String al = "aAbB 1";
        String v = Sym.anyString("v", Sym.choose("lv", 4), al), x = Sym.anyString("x", 1 + Sym.choose("lx", 2), al), y = Sym.anyString("y", 2, al), z = Sym.anyString("z", 3, al);
        boolean not = Sym.choose("not", 2) == 1;
        Sym.bound("texts of 0 to 3 characters");
        boolean any = Sym.or(v.equals(x), Sym.or(v.equals(y), v.equals(z)));
        H.checkBool(H.bool("v " + (not ? "not in" : "in") + " ('" + x + "', y, \"" + z + "\")", H.data("v", v, "y", y)), not ? Sym.not(any) : any, (not ? "NOT IN" : "IN") + " texts");
        Sym.cover("evaluated");
    }
    /** booleans, and members of different types side by side */
    public static void mixed() {
        int v = Sym.anyInt("v"), k = Sym.anyInt("k", 10, 99);
        String s = Sym.anyString("s", 2, "aA1");
        H.checkBool(H.bool("v in ('" + s + "', " + k + ", 5)", H.data("v", v)), Sym.or(Sym.or(v == k, v == 5), ("" + v).equals(s)), "IN with members of several types");
        H.checkBool(H.bool("v not in (" + k + ", '" + s + "', 5)", H.data("v", v)), Sym.not(Sym.or(Sym.or(v == k, v == 5), ("" + v).equals(s))), "NOT IN with members of several types");
        boolean b = Sym.anyBool("b");
        H.checkBool(H.bool("b in (false)", H.data("b", b)), !b, "IN booleans");
        H.checkBool(H.bool("b in (true, false)", H.data("b", b)), true, "IN booleans");
        Sym.cover("evaluated");
    }
    /** a text looked for among members of several types, in every order of them: numbers, texts, versions, dates */
    public static void textAmongOthers() {
        String al = "abAB";
        String v = Sym.anyString("v", 1 + Sym.choose("lv", 2), al), s = Sym.anyString("s", 1 + Sym.choose("ls", 2), al), t = Sym.anyString("t", 2, al);
        String[] m = {"5", "'" + s + "'", Sym.choose("kind", 3) == 0 ? "2.5" : Sym.choose("kind", 3) == 1 ? "f" : "99999999999", "\"" + t + "\""};
        int[][] order = {{0, 1, 2, 3}, {1, 0, 2, 3}, {0, 1, 3, 2}, {0, 2, 1, 3}, {1, 3, 0, 2}, {2, 1, 0, 3}};
        int[] o = order[Sym.choose("order", 6)];
        boolean not = Sym.choose("not", 2) == 1;
        Sym.bound("a text of 1 to 2 letters among two numbers and two texts in 6 orders");
        H.checkBool(H.bool("v " + (not ? "not in" : "in") + " (" + m[o[0]] + ", " + m[o[1]] + ", " + m[o[2]] + ", " + m[o[3]] + ")", H.data("v", v, "f", Sym.anyInt("f"))), not ? Sym.not(Sym.or(v.equals(s), v.equals(t))) : Sym.or(v.equals(s), v.equals(t)), (not ? "NOT IN" : "IN") + " text among members of several types");
        Sym.cover("evaluated");
    }
    /** a collection as a member stands for its elements */
    public static void collections() {
        int v = Sym.anyInt("v");
        int n = Sym.choose("n", 4);
        List<Object> l = new ArrayList<>();
        boolean any = v == 42;
        for (int i = 0; i < n; i++) { int x = Sym.anyInt("x" + i); l.add(x); any = Sym.or(any, v == x); }
        boolean not = Sym.choose("not", 2) == 1;
        Sym.bound("collections of 0 to 3 elements");
        H.checkBool(H.bool("v " + (not ? "not in" : "in") + (Sym.choose("pos", 2) == 0 ? " (l, 42)" : " (42, l)"), H.data("v", v, "l", l)), not ? Sym.not(any) : any, "IN with a collection member");
        Sym.cover("evaluated");
    }
    /** computed members, negative members and nested fields */
    public static void computed() {
        int v = Sym.anyInt("v"), a = Sym.anyInt("a"), b = Sym.anyInt("b");
        Map<String, Object> m = new LinkedHashMap<>();
        m.put("v", v);
        int form = Sym.choose("form", 4);
        String e = form == 0 ? "m.v in (a + b, 3)" : form == 1 ? "m.v in (3, a - b)" : form == 2 ? "m.v in (-7, a * 2)" : "m.v in (min(a, b), 3)";
        long s = form == 0 ? (long) a + b : form == 1 ? (long) a - b : form == 2 ? (long) a * 2 : Math.min(a, b);
        long k = form == 2 ? -7 : 3;
        H.checkBool(H.bool(e, H.data("m", m, "a", a, "b", b)), Sym.or(v == s, v == k), "IN computed members");
        Sym.cover("evaluated");
    }
    /** IN agrees with the disjunction of equalities */
    public static void sameAsEqualities() {
        Object v = H.number("v");
        int f = Sym.anyInt("f");
        Map<String, Object> d = H.data("v", v, "f", f);
        boolean r = H.bool("v in (7, f, 2.5, 99)", d).get(), c = H.bool("v = 7 or v = f or v = 2.5 or v = 99", d).get(), n = H.bool("v not in (7, f, 2.5, 99)", d).get();
        Sym.check(r == c, "IN agrees with =");
        Sym.check(n == !r, "NOT IN negates IN");
        Sym.cover("evaluated");
    }
    private static final int[] SIZES = {9, 17, 33, 65};
    /** many members, all but one of them literals */
    public static void manyMembers() {
        int n = SIZES[Sym.choose("size", Sym.thorough() ? SIZES.length : 3)], at = Sym.choose("at", 3) * (n - 1) / 2;
        Object v = H.number("v");
        int f = Sym.anyInt("f");
        boolean not = at > 0 && (n + at) % 2 == 1;
        StringBuilder list = new StringBuilder();
        BigDecimal x = H.dec(v);
        boolean any = false;
        for (int i = 0; i < n; i++) {
            BigDecimal m = i == at ? H.dec(f) : new BigDecimal(i % 3 == 2 ? i + ".5" : "" + (10 + i));
            list.append(i == 0 ? "" : ", ").append(i == at ? "f" : m.toString());
            any = Sym.or(any, x.compareTo(m) == 0);
        }
        Sym.bound("manyMembers: 9, 17 and 33 members (thorough: 65), one of them a field: the first, the last or the middle one");
        H.checkBool(H.bool("v " + (not ? "not in" : "in") + " (" + list + ")", H.data("v", v, "f", f)), not ? Sym.not(any) : any, (not ? "NOT IN" : "IN") + " many members");
        Sym.cover("evaluated");
    }
    public static void manyTexts() {
        int n = SIZES[Sym.choose("size", 3)], at = Sym.choose("at", 3) * (n - 1) / 2;
        String v = Sym.anyString("v", 2, "abkK1"), t = Sym.anyString("t", 2, "abkK1");
        boolean not = Sym.choose("not", 2) == 1;
        StringBuilder list = new StringBuilder();
        boolean any = false;
        for (int i = 0; i < n; i++) {
            String m = i == at ? t : "" + (char) ('a' + i % 11) + (char) ('a' + i / 11);
            list.append(i == 0 ? "'" : ", '").append(m).append("'");
            any = Sym.or(any, v.equals(m));
        }
        H.checkBool(H.bool("v " + (not ? "not in" : "in") + " (" + list + ")", H.data("v", v)), not ? Sym.not(any) : any, (not ? "NOT IN" : "IN") + " many texts");
        Sym.cover("evaluated");
    }
    /** a large collection as a member */
    public static void largeCollection() {
        int n = SIZES[Sym.choose("size", SIZES.length)], at = Sym.choose("at", 3) * (n - 1) / 2;
        Object v = H.number("v");
        long f = Sym.anyLong("f");
        List<Object> l = new ArrayList<>();
        boolean any = H.dec(v).compareTo(new BigDecimal("0.25")) == 0;
        for (int i = 0; i < n; i++) {
            Object m = i == at ? (Object) f : i % 3 == 0 ? (Object) new BigDecimal(i + ".50") : i % 3 == 1 ? (Object) i : (Object) (long) i;
            l.add(m);
            any = Sym.or(any, H.dec(v).compareTo(H.dec(m)) == 0);
        }
        Sym.bound("largeCollection: collections of 9 to 65 elements of several types, one of them symbolic");
        H.checkBool(H.bool("v in (l, 0.25)", H.data("v", v, "l", l)), any, "IN a large collection");
        Sym.cover("evaluated");
    }
}
