package h;

import java.math.BigDecimal;
import java.util.Map;
import sx.Sym;

/** Range predicates include both bounds. */
public class C06 {
    private static String lit(String n, boolean dec) { return lit(n, dec, 2); }
    private static String lit(String n, boolean dec, int max) {
        String s = H.digits(n, 1 + Sym.choose(n + ".len", max));
        return dec ? s + "." + Sym.anyString(n + ".f", 1 + Sym.choose(n + ".frac", 2), "0123456789") : s;
    }
    private static boolean in(BigDecimal v, String lo, String hi) { return Sym.and(v.compareTo(new BigDecimal(lo)) >= 0, v.compareTo(new BigDecimal(hi)) <= 0); }
    public static void range() {
        Object v = H.number("v");
        int kinds = Sym.choose("kinds", 4);
        String lo = lit("lo", (kinds & 1) != 0), hi = lit("hi", (kinds & 2) != 0);
        Sym.bound("bounds: integer and decimal literals of 1 to 2 integer and 1 to 2 fraction digits, in any order, including empty ranges");
        H.checkBool(H.bool("v " + lo + (Sym.choose("kw", 2) == 0 ? " to " : " TO ") + hi, H.data("v", v)), in(H.dec(v), lo, hi), "range");
        Sym.cover("evaluated");
    }
    /** bounds beyond the int range */
    public static void wideRange() {
        Object v = H.number("v");
        String lo = H.digits("lo", Sym.choose("lolen", 2) == 0 ? 9 : 11), hi = H.digits("hi", Sym.choose("hilen", 2) == 0 ? 10 : 18);
        Sym.bound("wide bounds: 9 to 18 digits");
        H.checkBool(H.bool("v " + lo + " to " + hi, H.data("v", v)), in(H.dec(v), lo, hi), "wide range");
        Sym.cover("evaluated");
    }
    /** a nested field, a default field, negation and combination with another predicate */
    public static void context() {
        int v = Sym.anyInt("v"), w = Sym.anyInt("w");
        Map<String, Object> inner = H.data("v", v);
        int form = Sym.choose("form", 4);
        boolean a = Sym.and(v >= 18, v <= 65), b = w > 7;
        String e = form == 0 ? "m.v 18 to 65" : form == 1 ? "not (m.v 18 to 65)" : form == 2 ? "m.v 18 to 65 and w > 7" : "w > 7 or m.v 18 to 65";
        boolean x = form == 0 ? a : form == 1 ? Sym.not(a) : form == 2 ? Sym.and(a, b) : Sym.or(b, a);
        H.checkBool(H.bool(e, H.data("m", inner, "w", w)), x, "range in context");
        Sym.cover("evaluated");
    }
    /** a range and the conjunction of the two comparisons it abbreviates agree */
    public static void sameAsComparisons() {
        Object v = H.number("v");
        boolean dec = Sym.choose("dec", 2) == 1;
        String lo = lit("lo", dec, 3), hi = lit("hi", false, 3);
        Map<String, Object> d = H.data("v", v);
        boolean r = H.bool("v " + lo + " to " + hi, d).get(), c = H.bool("v >= " + lo + " and v <= " + hi, d).get();
        Sym.check(r == c, "range agrees with >= and <=");
        Sym.cover("evaluated");
    }
    /** numeric text is in a range by its value */
    public static void numericText() {
        String s = (Sym.choose("neg", 2) == 1 ? "-" : "") + H.digits("s", 1 + Sym.choose("len", 3)) ;
        String lo = lit("lo", false), hi = lit("hi", false);
        H.checkBool(H.bool("s " + lo + " to " + hi, H.data("s", s)), in(new BigDecimal(s), lo, hi), "numeric text in range");
        Sym.cover("evaluated");
    }
}
