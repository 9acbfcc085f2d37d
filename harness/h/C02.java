package h;

import io.vavr.control.Try;
import java.util.Map;
import sx.Sym;

/** The comparison operators agree with each other, with IN and with ranges. */
public class C02 {
    private static boolean val(String e, Map<String, Object> d) {
        Try<Boolean> r = H.bool(e, d);
        Sym.check(r.isSuccess(), "comparison of like operands is answered");
        Sym.assume(r.isSuccess());
        return r.get();
    }
    private static void laws(String a, String b, Map<String, Object> d) {
        boolean eq = val(a + " = " + b, d), ne = val(a + " != " + b, d), lt = val(a + " < " + b, d), le = val(a + " <= " + b, d), gt = val(a + " > " + b, d), ge = val(a + " >= " + b, d);
        Sym.check(Sym.not(Sym.iff(eq, ne)), "!= is the negation of =");
        Sym.check(Sym.not(Sym.iff(lt, ge)), ">= is the negation of <");
        Sym.check(Sym.not(Sym.iff(gt, le)), "<= is the negation of >");
        Sym.check(Sym.iff(le, Sym.or(lt, eq)), "<= is < or =");
        Sym.check(Sym.iff(ge, Sym.or(gt, eq)), ">= is > or =");
        Sym.check(Sym.not(Sym.and(lt, gt)), "< and > exclude each other");
        boolean qe = val(b + " = " + a, d), tl = val(b + " > " + a, d), el = val(b + " >= " + a, d);
        Sym.check(Sym.iff(eq, qe), "= is symmetric");
        Sym.check(Sym.iff(lt, tl), "> mirrors <");
        Sym.check(Sym.iff(le, el), ">= mirrors <=");
        Sym.cover("laws");
    }
    private static Object value(String n, int kind) {
        switch (kind) {
            case 0: return Sym.anyInt(n);
            case 1: return Sym.anyLong(n);
            case 2: return Sym.anyDecimal(n, 3, -10000000, 10000000);
            case 3: return Sym.anyDouble(n, 3, -10000000, 10000000);
            case 4: return Sym.anyDate(n, 1900, 2100);
            case 5: return Sym.anyDateTime(n, 1990, 2060);
            default: return Sym.anyDecimal(n, 0, -10000000, 10000000);
        }
    }
    /** numbers (any mixture of kinds), dates and date-times */
    public static void fields() {
        int k = Sym.choose("kind.a", 7), l = k == 4 || k == 5 ? k : Sym.choose("kind.b", 4);
        laws("a", "b", H.data("a", value("a", k), "b", value("b", l)));
    }
    public static void text() {
        int n = Sym.choose("la", 3), m = Sym.choose("lb", 3);
        laws("a", "b", H.data("a", Sym.anyString("a", n, "abAB z_."), "b", Sym.anyString("b", m, "abAB z_.")));
    }
    public static void intLiteral() {
        int a = Sym.anyInt("a");
        laws("a", H.digits("n", 1 + Sym.choose("len", 3)), H.data("a", a));
    }
    /** versions: equality is compared with the ordering only through the fields' own text */
    public static void transitive() {
        int k = Sym.choose("kind", 6);
        Map<String, Object> d = H.data("a", value("a", k), "b", value("b", k), "c", value("c", k));
        boolean ab = val("a <= b", d), bc = val("b <= c", d), ac = val("a <= c", d);
        Sym.check(Sym.implies(Sym.and(ab, bc), ac), "<= is transitive");
        Sym.cover("transitive");
    }
    /** x IN (y) is x = y; NOT IN its negation */
    public static void membership() {
        int k = Sym.choose("kind", 6);
        Map<String, Object> d = H.data("a", value("a", k), "b", value("b", k), "c", value("c", k));
        boolean in = val("a in (b, c)", d), nin = val("a not in (b, c)", d), e1 = val("a = b", d), e2 = val("a = c", d);
        Sym.check(Sym.iff(in, Sym.or(e1, e2)), "IN is the disjunction of equalities");
        Sym.check(Sym.not(Sym.iff(in, nin)), "NOT IN is the negation of IN");
        Sym.cover("membership");
    }
    /** x lo TO hi is x >= lo AND x <= hi */
    public static void range() {
        Object a = H.number("a");
        String lo = H.digits("lo", 1 + Sym.choose("ll", 2)), hi = H.digits("hi", 1 + Sym.choose("hl", 2)) + (Sym.choose("dec", 2) == 1 ? ".5" : "");
        Map<String, Object> d = H.data("a", a);
        boolean in = val("a " + lo + " TO " + hi, d), ge = val("a >= " + lo, d), le = val("a <= " + hi, d);
        Sym.check(Sym.iff(in, Sym.and(ge, le)), "a range is the conjunction of its bounds");
        Sym.cover("range");
    }
}
