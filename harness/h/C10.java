package h;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.Map;
import sx.Sym;

/** x = null holds exactly when x has no value; x != null is its negation. */
public class C10 {
    /** a value of the given kind; 0 is null, 1 is absent */
    private static Object value(int kind) {
        switch (kind) {
            case 2: return Sym.anyInt("v");
            case 3: return Sym.anyBool("v");
            case 4: return Sym.anyString("v", Sym.choose("len", 5), "nul LNU'0");
            case 5: return Sym.anyDecimal("v", 1, -1000, 1000);
            case 6: return new ArrayList<Object>();
            case 7: return Sym.anyDate("v", 1900, 2199);
            default: return new LinkedHashMap<String, Object>();
        }
    }
    static final int KINDS = 9;
    public static void simple() {
        int kind = Sym.choose("kind", KINDS);
        Map<String, Object> d = H.data("other", 1);
        if (kind == 0) d.put("x", null); else if (kind != 1) d.put("x", value(kind));
        boolean isNull = kind <= 1;
        Sym.bound("values: null, absent, int, boolean, text of 0 to 4 characters (the text null among them), decimal, list, date, map");
        String[] e = {"x = null", "x != null", "null = x", "null != x", "not (x = null)", "(x) = null"};
        boolean[] expect = {isNull, !isNull, isNull, !isNull, !isNull, isNull};
        int k = Sym.choose("form", e.length);
        H.checkBool(H.bool(e[k], d), expect[k], "null check " + e[k]);
        Sym.cover("evaluated");
    }
    /** nested fields, with the chain broken at any level */
    public static void nested() {
        int at = Sym.choose("broken", 6);
        Map<String, Object> m2 = new LinkedHashMap<>(), m1 = new LinkedHashMap<>(), d = new LinkedHashMap<>();
        if (at == 0) { m2.put("c", Sym.anyInt("v")); m1.put("b", m2); d.put("a", m1); }
        else if (at == 1) { m2.put("c", null); m1.put("b", m2); d.put("a", m1); }
        else if (at == 2) { m1.put("b", m2); d.put("a", m1); }
        else if (at == 3) { m1.put("b", Sym.anyInt("w")); d.put("a", m1); }
        else if (at == 4) d.put("a", null);
        H.checkBool(H.bool("a.b.c = null", d), at != 0, "nested null check");
        H.checkBool(H.bool("a.b.c != null", d), at == 0, "nested non-null check");
        Sym.cover("evaluated");
    }
    /** guarding a comparison, and combined with others */
    public static void guard() {
        int kind = Sym.choose("kind", 3), y = Sym.anyInt("y");
        Map<String, Object> d = H.data("y", y);
        int v = kind == 2 ? Sym.anyInt("v") : 0;
        if (kind == 0) d.put("x", null); else if (kind == 2) d.put("x", v);
        boolean has = kind == 2;
        H.checkBool(H.bool("x != null and x > 5", d), has && v > 5, "guarded comparison");
        H.checkBool(H.bool("x = null or x > y", d), !has || v > y, "default when null");
        H.checkBool(H.bool("y > 3 and x = null", d), Sym.and(y > 3, !has), "null check on the right");
        H.checkBool(H.bool("x = null and y != null", d), !has, "two null checks");
        Sym.cover("evaluated");
    }
    /** the quoted text 'null' is not null */
    public static void quoted() {
        String s = Sym.anyString("s", 4, "nulabNULA");
        H.checkBool(H.bool("x = 'null'", H.data("x", s)), s.equals("null"), "quoted null is text");
        H.checkBool(H.bool("x != null", H.data("x", s)), true, "text is not null");
        H.checkBool(H.bool("x = y", H.data("x", s, "y", "null")), s.equals("null"), "a field holding the text null");
        Sym.cover("evaluated");
    }
    /** computed operands and quoted literals are never null */
    public static void computed() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        H.checkBool(H.bool("(a + b) = null", H.data("a", a, "b", b)), false, "computed value is not null");
        H.checkBool(H.bool("(a + b) != null", H.data("a", a, "b", b)), true, "computed value is not null");
        H.checkBool(H.bool("null != min(a, b)", H.data("a", a, "b", b)), true, "computed value is not null");
        Sym.cover("evaluated");
    }
}
