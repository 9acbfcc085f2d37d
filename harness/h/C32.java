package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** A parenthesised expression may stand wherever its value may: a field holding the value gives the same answer. */
public class C32 {
    private static final String[] E = {"a + b", "a - b", "a * 3", "a / 2", "a % 7", "-a", "min(a, b)", "max(a, b, 3)", "sum(l)", "avg(a, b)", "median(l)", "len(t)", "int(d)", "d + a", "d * 2", "-d", "a / b", "2 ^ 3", "mode(l)", "(a + b) * 2"};
    private static Map<String, Object> data() {
        int a = Sym.anyInt("a", -30000, 30000), b = Sym.anyInt("b", -30000, 30000), c = Sym.anyInt("c");
        BigDecimal d = Sym.anyDecimal("d", 2, -1000000, 1000000);
        return H.data("a", a, "b", b, "c", c, "d", d, "l", new ArrayList<Object>(Arrays.asList(a, b, a)), "t", "hello", "m", H.data("c", c));
    }
    private static void arith(String context, String e, Map<String, Object> d, String tag) {
        Try<Object> v = H.arith(e, d), whole = H.arith(context.replace("?", "(" + e + ")"), d);
        if (v.isFailure()) { Sym.check(whole.isFailure(), tag + ": no value, no answer"); return; }
        d.put("x", v.get());
        C25.same(whole, H.arith(context.replace("?", "x"), d), tag);
        Sym.cover("evaluated");
    }
    private static void bool(String context, String e, Map<String, Object> d, String tag) {
        Try<Object> v = H.arith(e, d);
        Try<Boolean> whole = H.bool(context.replace("?", "(" + e + ")"), d);
        // a logical operator need not look at its second operand
        if (v.isFailure()) { Sym.check(whole.isFailure() || context.contains(" and ") || context.contains(" or "), tag + ": no value, no answer"); return; }
        d.put("x", v.get());
        C25.same(whole, H.bool(context.replace("?", "x"), d), tag);
        Sym.cover("evaluated");
    }
    public static void inComparison() {
        String e = H.pick("e", E), op = H.pick("op", H.OPS);
        bool(H.pick("side", "? # c", "c # ?", "? # 12.5").replace("#", op), e, data(), "in a comparison");
        Sym.bound("20 expressions over two integers, a decimal, a text and a collection in the contexts of each harness");
    }
    public static void inArithmetic() {
        arith(H.pick("context", "? + c", "c - ?", "? * 2", "? / 4", "? % 5", "-?", "c / ?"), H.pick("e", E), data(), "in arithmetic");
    }
    public static void inFunctions() {
        arith(H.pick("context", "min(?, c)", "max(c, ?, 3)", "sum(?, ?)", "avg(c, ?)", "median(?, c, b)", "mode(?, c, ?)", "int(?)"), H.pick("e", E), data(), "in a call");
    }
    public static void inLists() {
        bool(H.pick("context", "c in (?, 4)", "c not in (7, ?)", "l contains_any (?)", "l contains_all (?)", "m.c in (?)"), H.pick("e", E), data(), "in a list");
    }
    public static void inLogic() {
        bool(H.pick("context", "? > c and c < 9", "c > 4 or not (? = c)", "(? >= 2 or c = 1) and ? != c", "not (c <= ?)"), H.pick("e", E), data(), "in a logical expression");
    }
    /** computed on both sides */
    public static void both() {
        String e = H.pick("e", E), g = E[(Arrays.asList(E).indexOf(e) * 7 + Sym.choose("g", 3)) % E.length], op = H.pick("op", "=", "<", ">=");
        Map<String, Object> d = data();
        Try<Object> v = H.arith(e, d), w = H.arith(g, d);
        Try<Boolean> whole = H.bool("(" + e + ") " + op + " (" + g + ")", d);
        if (v.isFailure() || w.isFailure()) { Sym.check(whole.isFailure(), "on both sides: no value, no answer"); return; }
        d.put("x", v.get());
        d.put("y", w.get());
        C25.same(whole, H.bool("x " + op + " y", d), "on both sides");
        Sym.cover("evaluated");
    }
    /** a truth value may stand for the condition that has it */
    public static void conditions() {
        String[] cs = {"a > b", "a in (b, 3)", "a 1 to 5", "l contains_any (4)", "a = b and c < 3", "not (a > b)", "(a + b) > c", "n = null", "true", "a > 2 or b > 2", "a > 2 and b > 2", "a not in (b)", "not f"};
        String e = H.pick("e", cs), context = H.pick("context", "?", "not ?", "? and c > 5", "c > 5 or ?", "not (? and c > 5)", "(? or c = 1) and a < 9", "? = f", "f != ?");
        Map<String, Object> d = data();
        d.put("f", Sym.choose("f", 2) == 1);
        Try<Boolean> v = H.bool(e, d);
        Sym.check(v.isSuccess(), "a condition: evaluation succeeds");
        Try<Boolean> whole = H.bool(context.replace("?", "(" + e + ")"), d);
        d.put("x", v.get());
        C25.same(whole, H.bool(context.replace("?", "x"), d), "a condition");
        Sym.cover("evaluated");
    }
    /** a literal may stand for the field that holds its value and the other way round */
    public static void literals() {
        String e = H.pick("context", "? > c", "c != ?", "? 1 to 50", "(? + c) > 3", "min(?, c) = c", "c in (?, 4)", "l contains_any (?)");
        String k = Sym.choose("kind", 2) == 0 ? H.digits("k", 2) : H.digits("k", 1) + "." + Sym.anyString("f", 1, "0123456789");
        Map<String, Object> d = data();
        if (e.startsWith("? 1")) e = "c " + k + " to 50";
        Try<Boolean> lit = H.bool(e.replace("?", k), d);
        d.put("x", k.contains(".") ? (Object) new BigDecimal(k) : (Object) Integer.parseInt(k));
        C25.same(lit, e.contains("to 50") ? H.bool("c >= x and c <= 50", d) : H.bool(e.replace("?", "x"), d), "a literal");
        Sym.cover("evaluated");
    }
    /** the two evaluators agree on conditions */
    public static void evaluators() {
        String e = H.pick("e", "a > b", "a in (b, 3)", "a 1 to 5", "l contains_any (4)", "a = b and c < 3", "not (a > b)", "(a + b) > c", "true", "a > b or t = 'hello'", "l contains_all (4, b)", "min(a, b) < c", "a not in (c)");
        Map<String, Object> d = data();
        Try<Object> r = H.arith(e, d);
        Try<Boolean> s = H.bool(e, d);
        if (r.isSuccess()) {
            Sym.check(s.isSuccess() && r.get() instanceof Boolean, "both evaluators answer with a truth value");
            if (s.isSuccess() && r.get() instanceof Boolean) Sym.check((boolean) (Boolean) r.get() == (boolean) s.get(), "both evaluators agree");
        }
        Sym.cover("evaluated");
    }
    private static final String[] W = {"p % q", "p + a", "p - q", "p * 2", "u * v", "u + d", "u - p", "max(u, v)", "min(p, q)", "sum(u, v)", "median(u, v, d)", "-u", "max(p, u)", "int(u)", "mode(u, u, v)", "avg(p, u)", "p / a"};
    private static Map<String, Object> wide() {
        Map<String, Object> d = H.data("a", Sym.anyInt("a", 1, 9), "p", Sym.anyLong("p", -4000000000000000L, 4000000000000000L), "q", Sym.anyLong("q", 1L << 33, 1L << 40));
        d.put("u", Sym.anyDecimal("u", 20, -900000000000000000L, 900000000000000000L));
        d.put("v", Sym.anyDecimal("v", 7, -900000000000000000L, 900000000000000000L));
        d.put("d", Sym.anyDecimal("d", 2, -1000000, 1000000));
        d.put("c", Sym.anyDecimal("c", 9, -900000000000000000L, 900000000000000000L));
        return d;
    }
    /** values beyond 32 bits and decimals of more digits than a double has */
    public static void wideComparison() {
        bool(H.pick("context", "? > c", "c = ?", "? <= c", "c in (?, 4)", "? != c and c < 7"), H.pick("e", W), wide(), "a long value in a condition");
        Sym.bound("wide: 17 expressions over longs up to 4*10^15 and decimals with up to 20 fraction digits");
    }
    public static void wideArithmetic() {
        arith(H.pick("context", "? + c", "c - ?", "? * 2", "1 + ?", "-?", "? / 4"), H.pick("e", W), wide(), "a long value in arithmetic");
    }
    public static void wideFunctions() {
        arith(H.pick("context", "min(?, c)", "max(c, ?, 3)", "sum(?, ?)", "median(?, c, d)", "min(?, ?)", "avg(?, 3)"), H.pick("e", W), wide(), "a long value in a call");
    }
    /** parentheses around a field change nothing, whatever the field holds */
    public static void fields() {
        Object[] pool = {Sym.anyInt("x"), Sym.anyLong("x2"), Sym.anyDecimal("x3", 3, -100000, 100000), Sym.anyDouble("x4", 2, -1000, 1000), Sym.anyString("x5", 1, "aB1"), Sym.anyDate("x6", 2019, 2021), "2020-02-0" + Sym.anyString("x7", 1, "19"), Sym.choose("x8", 2) == 1, "1.2." + Sym.anyString("x9", 1, "09"), new ArrayList<Object>(Arrays.asList(1, 2))};
        int i = Sym.choose("value", pool.length), j = Sym.choose("other", 2);
        Map<String, Object> d = H.data("x", pool[i], "y", pool[(i + j * (j + 1) / 2) % pool.length], "z", Sym.anyInt("z"));
        String context = H.pick("context", "? = y", "y < ?", "z <= ?", "not ?", "? and z > 3");
        C25.same(H.bool(context.replace("?", "(x)"), d), H.bool(context.replace("?", "x"), d), "a field in parentheses");
        if (context.equals("not ?")) C25.same(H.arith("((x)) + (z)", d), H.arith("x + z", d), "fields in parentheses");
        Sym.cover("evaluated");
    }
}
