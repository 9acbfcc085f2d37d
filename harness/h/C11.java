package h;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.Map;
import sx.Sym;

/** What cannot be evaluated is reported as a failure: never a wrong answer, never an exception out of the call. */
public class C11 {
    static final String[] MISSING = {"x = 3", "x != 3", "x > 3", "x <= 3", "x = 'a'", "x != 'a'", "3 < x", "a = x", "a < x", "x 1 to 5", "x in (1, 2)", "x not in (1, 2)", "x contains_any (1)", "x contains_all (1)",
        "x", "not x", "(x + 1) > 2", "min(x, 2) > 1", "len(x) > 0", "a in (x, 5000)", "l contains_any (x)", "m.x = 3", "m.y.z = 3", "a.x = 3", "not (x = 3)", "(x)", "-x < 3", "x > 3 and a = a", "a = a and x > 3", "not (x > 3) or a = a"};
    /** every kind of predicate over a field that is absent or null */
    public static void missing() {
        int a = Sym.anyInt("a", -100, 100);
        Map<String, Object> d = H.data("a", a, "m", new LinkedHashMap<String, Object>(), "l", new ArrayList<Object>(Arrays.asList(1, 2)));
        if (Sym.choose("null", 2) == 1) d.put("x", null);
        String e = H.pick("expr", MISSING);
        Sym.bound("30 predicates and 16 arithmetic expressions over an absent or null field");
        H.fails(H.bool(e, d), "missing data fails: " + e);
        Sym.cover("evaluated");
    }
    static final String[] MISSING_A = {"x + 1", "1 + x", "x - a", "a * x", "x / 2", "x % 2", "2 ^ x", "-x", "(x)", "x", "min(x, a)", "sum(a, x)", "len(x)", "int(x)", "days_elapsed(x)", "(a + 1) * (m.x - 1)"};
    public static void missingArithmetic() {
        int a = Sym.anyInt("a", -100, 100);
        Map<String, Object> d = H.data("a", a, "m", new LinkedHashMap<String, Object>());
        if (Sym.choose("null", 2) == 1) d.put("x", null);
        String e = H.pick("expr", MISSING_A);
        H.fails(H.arith(e, d), "missing data fails: " + e);
        Sym.cover("evaluated");
    }
    /** non-numeric text against a number */
    public static void notNumeric() {
        int a = Sym.anyInt("a");
        String s = Sym.anyString("s", 1, "abxyzXYZ_ ") + Sym.anyString("t", Sym.choose("len", 3), "abzAZ09._- ");
        Map<String, Object> d = H.data("a", a, "s", s);
        String e = H.pick("expr", "s < a", "s <= a", "a > s", "a >= s", "s > 10", "10 <= s", "s 1 to 5", "s < 2.5");
        Sym.bound("text of 1 to 3 characters that starts with a letter, an underscore or a blank");
        H.fails(H.bool(e, d), "order of text and number fails: " + e);
        String f = H.pick("arith", "s - a", "a - s", "s * a", "a / s", "s % a", "s ^ 2", "-s", "min(a, s)", "sum(s, a)", "avg(a, s)", "median(a, s)", "mode(s, a)", "int(s)", "days_elapsed(s)");
        H.fails(H.arith(f, d), "arithmetic on text fails: " + f);
        Sym.cover("evaluated");
    }
    /** values that can not be brought to one type */
    public static void incomparable() {
        java.time.LocalDate x = Sym.anyDate("x", 1950, 2050);
        java.time.LocalDateTime t = Sym.anyDateTime("t", 1950, 2050);
        boolean b = Sym.anyBool("b");
        Object n = H.number("n");
        Map<String, Object> d = H.data("x", x, "t", t, "b", b, "n", n);
        String[] pairs = {"x t", "t x", "b n", "n b", "b x", "x b", "b t", "t b", "n x", "x n", "n t", "t n", "x 2020-01-01 10:00:00", "t 2020-01-01", "b 2.5", "b 17", "x 17", "t 17", "b 2020-01-01"};
        String p = H.pick("pair", pairs), op = H.pick("op", H.OPS);
        int k = p.indexOf(' ');
        String e = p.substring(0, k) + " " + op + " " + p.substring(k + 1);
        Sym.bound("19 pairs of a date, a date-time, a boolean and a number, six operators");
        H.fails(H.bool(e, d), "values of incomparable types fail: " + e);
        Sym.cover("evaluated");
    }
    /** booleans have no order and no arithmetic; non-booleans have no truth value */
    public static void booleans() {
        boolean b = Sym.anyBool("b");
        int a = Sym.anyInt("a");
        Map<String, Object> d = H.data("a", a, "b", b, "s", "yes");
        String e = H.pick("expr", "b > b", "b < true", "b >= 1", "a < b", "b 1 to 2", "a", "not a", "s", "not s", "a and b", "b and a and b", "s or b", "(a + 1)", "a + 1", "not (a + 1)", "min(a, 2)", "5", "'yes'", "not 5", "2.5", "(a + 1) or b", "len(s)");
        if (e.equals("s or b")) d.put("b", b);
        Try<Boolean> r = H.bool(e, d);
        if (e.equals("b and a and b") && !b) { H.checkBool(r, false, "AND decided by its left operand"); Sym.cover("evaluated"); return; }
        H.fails(r, "not a predicate: " + e);
        Sym.cover("evaluated");
    }
    static final String[] ARITH = {"b + 1 > 2", "-b", "b * 2", "b - 1", "b / 2", "b % 2", "b ^ 2", "min(b, 1)", "a > 1", "not a", "b and b", "a in (1, 2)", "a 1 to 5", "sum(b, b)", "min()", "min(1)", "l * l", "l - 1", "min(l, 'a')", "int(l)", "days_elapsed(a)"};
    public static void notArithmetic() {
        boolean b = Sym.anyBool("b");
        int a = Sym.anyInt("a");
        String e = H.pick("expr", ARITH);
        H.fails(H.arith(e, H.data("a", a, "b", b, "l", new ArrayList<Object>(Arrays.asList(1, 2)))), "not an arithmetic expression: " + e);
        Sym.cover("evaluated");
    }
    static final String[] ALL = {"x = 3", "x != y", "x > y", "x < 3", "x >= 2.5", "x <= 'a'", "x = 2020-01-01", "x < 2020-01-01 10:00:00", "x > 1.2.3", "x 1 to 5", "x in (1, 'a', y)", "x not in (y)", "x contains_any (1, 2)", "x contains_all (y)",
        "x", "not x", "x and y", "x or y", "x = null", "(x + y) > 3", "(x * 2) = y", "min(x, y) < 2", "len(x) = 2", "int(x) > 1", "days_elapsed(x) > 1", "-x > 2", "(x", "x >", "x in", "and", "", ")", "x = = y", "'", "x.y.z = 1", "median(x, y, 1) = 1", "mode(x, y) = x", "x % y"};
    private static Object kind(String n) {
        switch (Sym.choose(n + ".kind", 12)) {
            case 0: return Sym.anyInt(n);
            case 1: return Sym.anyLong(n);
            case 2: return Sym.anyBool(n);
            case 3: return "a";
            case 4: return "12";
            case 5: return null;
            case 6: return new ArrayList<Object>();
            case 7: return new ArrayList<Object>(Arrays.asList(1, "a", null));
            case 8: return new LinkedHashMap<String, Object>();
            case 9: return java.time.LocalDate.of(2020, 2, 29);
            case 10: return new Object[]{1, 2};
            default: return Sym.anyDecimal(n, 2, -100000, 100000);
        }
    }
    /** whatever the expression and whatever the types, the outcome is a Try */
    private static void contained(Object x, Object y) {
        String e = H.pick("expr", ALL);
        boolean escaped = false;
        BoolParser p = Sym.choose("cached", 2) == 0 ? new BoolParser() : new CachedBoolParser(10);
        try {
            Try<Boolean> r = new BooleanExpressionEvaluator(p).evaluate(e, H.data("x", x, "y", y));
            Sym.check(r.isSuccess() || r.getCause() != null, "success or failure");
            Try<Object> s = new ArithmeticExpressionEvaluator(p).evaluate(e, H.data("x", x, "y", y));
            Sym.check(s.isSuccess() || s.getCause() != null, "success or failure");
        } catch (RuntimeException ex) { escaped = true; }
        Sym.check(!escaped, "no exception escapes");
        Sym.cover("evaluated");
    }
    public static void contained() {
        Sym.bound("38 expressions, well-formed and not, over values of 12 kinds in one field and an int in the other");
        contained(kind("x"), 7);
    }
    public static void containedThorough() { contained(kind("x"), kind("y")); }
    /** the parser alone */
    public static void parse() {
        String e = H.pick("expr", ALL);
        boolean escaped = false;
        try { new BoolParser().parseExpression(e); new BoolParser().parseExpression(e, "x"); new CachedBoolParser(3).parseExpression(e); } catch (RuntimeException ex) { escaped = true; }
        Sym.check(!escaped, "no exception escapes the parser");
        Sym.cover("parsed");
    }
}
