package h;

import java.math.BigDecimal;
import java.util.Map;
import sx.Sym;

/** With a default field an operator without a left operand applies to that field; expressions that name their fields are unaffected. */
public class C27 {
    /** a bare comparison with a literal or a field */
    public static void comparison() {
        Object v = H.number("v");
        int k = Sym.anyInt("k", 10, 99), f = Sym.anyInt("f");
        Map<String, Object> d = H.data("age", v, "f", f);
        Sym.bound("all six operators; 5 numeric types; literals of 2 digits and fields");
        for (String c : H.OPS) {
            H.checkBool(H.bool(c + " " + k, d, "age"), H.holds(c, H.dec(v).compareTo(new BigDecimal(k))), "default field " + c + " literal");
            H.checkBool(H.bool(c + " f", d, "age"), H.holds(c, H.dec(v).compareTo(H.dec(f))), "default field " + c + " field");
            H.checkBool(H.bool(c + k, d, "age"), H.holds(c, H.dec(v).compareTo(new BigDecimal(k))), "default field, no blank");
        }
        Sym.cover("evaluated");
    }
    /** nested, textual, boolean and date fields */
    public static void types() {
        String s = Sym.anyString("s", 2, "aAb"), t = Sym.anyString("t", 2, "aAb");
        boolean b = Sym.anyBool("b");
        java.time.LocalDate x = Sym.anyDate("x", 1990, 2030);
        Map<String, Object> d = H.data("m", H.data("s", s, "b", b), "x", x);
        H.checkBool(H.bool("= '" + t + "'", d, "m.s"), s.equals(t), "default text field");
        H.checkBool(H.bool("!= '" + t + "'", d, "m.s"), !s.equals(t), "default text field");
        H.checkBool(H.bool("= true", d, "m.b"), b, "default boolean field");
        H.checkBool(H.bool("< 2001-05-20", d, "x"), x.isBefore(java.time.LocalDate.of(2001, 5, 20)), "default date field");
        Sym.cover("evaluated");
    }
    /** several bare comparisons, with and, or, not and parentheses */
    public static void logic() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        Map<String, Object> d = H.data("a", a, "b", b);
        String[] e = {">= 18 and < 65", "< 18 or > 65", "not (> 18)", "not (>= 18 and < 65)", "(> 18 and < 30) or = 40", "> 18 and b > 5", "b > 5 and > 18", "!= 7 and != 8 and != 9", "not (= b) or b = 3", "> b or (< b and b < 4)", "(> 18)", "((> 18) and ((< 30)))", "> 18 && < 30 || = 99"};
        boolean[] v = {a >= 18 & a < 65, a < 18 | a > 65, !(a > 18), !(a >= 18 & a < 65), a > 18 & a < 30 | a == 40, a > 18 & b > 5, b > 5 & a > 18, a != 7 & a != 8 & a != 9, !(a == b) | b == 3, a > b | a < b & b < 4, a > 18, a > 18 & a < 30, a > 18 & a < 30 | a == 99};
        int i = Sym.choose("e", e.length);
        H.checkBool(H.bool(e[i], d, "a"), v[i], "default field in " + e[i]);
        Sym.cover("evaluated");
    }
    /** the literal first */
    public static void mirrored() {
        int a = Sym.anyInt("a");
        for (String c : H.OPS) H.checkBool(H.bool("18 " + c, H.data("a", a), "a"), H.holds(c, Integer.compare(18, a)), "default field on the right of " + c);
        Sym.cover("evaluated");
    }
    /** expressions that name their fields do not look at the default field */
    public static void named() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), z = Sym.anyInt("z");
        String e = H.pick("e", "a > b", "a = 10 and b < 3", "a in (1, b)", "a 1 to 5", "not (a = b)", "(a + b) > 10", "min(a, b) < 3", "a = 3 or b = 4");
        String def = H.pick("def", "z", "a", "nothing");
        Map<String, Object> d = H.data("a", a, "b", b, "z", z);
        C25.same(H.bool(e, d, def), H.bool(e, d), "named fields");
        Sym.cover("evaluated");
    }
    static final String[] FORMS = {"F > 5", "5 <= F", "F = g", "F in (1, 2, g)", "F not in (g)", "F 10 to 20", "not (F = g)", "(F + g) > 10", "min(F, g) < 3", "F = null", "F != null", "l contains_any (F, 1)", "F.k = 3", "g in (F)", "-F < g", "-17 = F"};
    static final String[] FIELDS = {"a", "A", "AGE", "age_1", "_x", "_", "X9", "Z", "nulls", "truex", "order_1", "toto", "T", "in_", "min_a"};
    /** whatever the named field is called, the default field is not looked at: the default has another value or none */
    public static void anyName() {
        int v = Sym.anyInt("v"), g = Sym.anyInt("g"), z = Sym.anyInt("z");
        String f = H.pick("field", FIELDS), e = H.pick("e", FORMS).replace("F", f), def = H.pick("def", "z", "nothing");
        java.util.ArrayList<Object> l = new java.util.ArrayList<>();
        l.add(v); l.add(7);
        Map<String, Object> d = H.data("z", z, "g", g, "l", l);
        d.put(f, e.contains(".k") ? (Object) H.data("k", v) : (Object) v);
        Sym.bound("15 names of fields in 16 forms of predicates");
        C25.same(H.bool(e, d, def), H.bool(e, d), "named field with a default field: " + e);
        Sym.cover("evaluated");
    }
    /** the field of CONTAINS named or left out */
    public static void contains() {
        int x = Sym.anyInt("x"), y = Sym.anyInt("y");
        String f = H.pick("field", FIELDS), e = f + (Sym.choose("all", 2) == 0 ? " contains_any (3, y)" : " contains_all (3, y)");
        java.util.ArrayList<Object> l = new java.util.ArrayList<>(), k = new java.util.ArrayList<>();
        l.add(x); l.add(3);
        k.add(y); k.add(3);
        C25.same(H.bool(e, H.data(f, l, "zz", k, "y", y), "zz"), H.bool(e, H.data(f, l, "zz", k, "y", y)), "named field of CONTAINS with a default field");
        Sym.cover("evaluated");
    }
    /** mixed: the named field stays, the bare operator takes the default */
    public static void mixed() {
        int a = Sym.anyInt("a"), z = Sym.anyInt("z");
        Map<String, Object> d = H.data("a", a, "z", z);
        H.checkBool(H.bool("a > 5 and > 7", d, "z"), a > 5 & z > 7, "named and default field");
        H.checkBool(H.bool("> 7 or a > 5", d, "z"), a > 5 | z > 7, "named and default field");
        Sym.cover("evaluated");
    }
    /** without a default field, or without a value for it, the evaluation fails */
    public static void absent() {
        int a = Sym.anyInt("a");
        String e = H.pick("e", "> 5", "= 'x'", "> 5 and < 7", "not (> 5)", "!= 3", "<= a");
        Map<String, Object> d = H.data("a", a);
        H.fails(H.bool(e, d), "no default field: " + e);
        H.fails(H.bool(e, d, "x"), "absent default field: " + e);
        H.fails(H.bool(e, d, "a.b"), "absent nested default field: " + e);
        Sym.cover("evaluated");
    }
}
